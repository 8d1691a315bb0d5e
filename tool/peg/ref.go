package peg

// Reference is the schema language this project promises to accept, with the
// labels the reference meaning of each rule refers to.
const Reference = `
File <- _ ds:Declaration* _ EOF
Declaration <- _ d:(ConstDeclaration / ContextDeclaration / StructDeclaration / ExternDeclaration / PragmaDeclaration) _
ConstDeclaration <- "const" __ n:ConstIdentifier _ "=" _ v:IntLiteral _ ";"
ContextDeclaration <- "context" __ n:Identifier __ "{" _ fs:ContextMember* _ "}" _ ";"?
ContextMember <- _ t:IntType __ n:Identifier _ ";" _
StructDeclaration <- s:StructDecl _ ";"?
StructDecl <- n:StructIdentifier ctx:(__ c:ContextRefs)? _ "{" ms:StructMember* _ e:StructEnding? _ "}"
StructIdentifier <- "struct" __ n:Identifier
ExternDeclaration <- "extern" __ n:StructIdentifier ctx:(__ c:ContextRefs)? _ ";"
PragmaDeclaration <- "trunnel" __ n:Identifier __ opts:IdentifierList _ ";"
ContextRefs <- "with" __ "context" __ ns:IdentifierList
StructMember <- _ m:(SMArray / SMInteger / SMPosition / SMString / SMStruct / SMUnion) _ ";"
StructEnding <- _ e:(SMRemainder / StructEOS) _ ";"
StructEOS <- "eos"
SMArray <- a:(SMFixedArray / SMVarArray)
SMFixedArray <- b:ArrayBase __ n:Identifier _ "[" s:Integer "]"
SMVarArray <- b:ArrayBase __ n:Identifier _ "[" l:LengthConstraint "]"
LengthConstraint <- l:(Leftover / IDRef)
Leftover <- "..-" i:Integer
SMRemainder <- b:ArrayBase __ n:Identifier _ "[" _ "]"
ArrayBase <- t:(IntType / CharType / StructRef)
SMInteger <- t:IntType _ n:Identifier _ cst:IntConstraint?
SMPosition <- "@ptr" __ n:Identifier
SMString <- "nulterm" __ n:Identifier
SMStruct <- s:StructRef __ n:Identifier
SMUnion <- "union" __ n:Identifier _ "[" t:IDRef "]" _ l:UnionLength? _ "{" _ cs:UnionMember* _ "}"
UnionLength <- "with" __ "length" __ l:LengthConstraint
UnionMember <- _ cse:UnionCase _ ":" _ fs:UnionBody _
UnionCase <- l:IntList / "default"
UnionBody <- _ ";" / "fail" _ ";" / "ignore" _ ";" / fs:UnionFields
UnionFields <- ms:UnionField* _ e:ExtentSpec?
UnionField <- _ m:(SMArray / SMInteger / SMString / SMStruct) _ ";"
ExtentSpec <- "..." _ ";" / r:SMRemainder _ ";"
StructRef <- s:StructDecl / n:StructIdentifier
CharType <- "char"
IntType <- "u" b:("8" / "16" / "32" / "64")
IntConstraint <- "IN" __ "[" _ l:IntList _ "]"
IntList <- m:IntListMember ms:(_ "," _ x:IntListMember)*
IntListMember <- lo:Integer hi:(_ ".." _ x:Integer)?
Integer <- i:(IntegerConstRef / IntegerLiteral)
IntegerConstRef <- n:ConstIdentifier
IntegerLiteral <- v:IntLiteral
IDRef <- s:(x:Identifier ".")? n:Identifier
IdentifierList <- n:Identifier ns:(_ "," _ x:Identifier)*
Identifier <- [a-zA-Z_] [a-zA-Z0-9_]*
ConstIdentifier <- [A-Z_] [A-Z0-9_]*
IntLiteral <- HexLiteral / OctalLiteral / DecimalLiteral
DecimalLiteral <- [0-9]+
HexLiteral <- "0x" [0-9a-fA-F]+
OctalLiteral <- "0" [0-7]+
SourceChar <- .
Comment <- MultiLineComment / SingleLineComment
MultiLineComment <- "/*" (!"*/" SourceChar)* "*/"
SingleLineComment <- "//" (!EOL SourceChar)*
__ <- Skip+
_ <- Skip*
Skip <- Whitespace / EOL / Comment
Whitespace <- [ \t\r]
EOL <- "\n"
EOF <- !.
`
