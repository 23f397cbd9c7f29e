#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects of /repo (with their commits) and open findings."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C01 77b797a ratel::parse("`a") read past the end of the source
C01 a1e1c1d ratel::parse("/a") read past the end of the source
C01 74cf2ff ratel::parse("a.") read past the end of the source
C01 565042c ratel::parse("a.é") panicked, and ratel::parse("×") never returned
C01 bb4583c ratel::parse("switch(a){case b:") never returned
C06 de0d44e "a/*\\n*/b" was rejected: a line break in or before a block comment did not allow semicolon insertion
C15 941dc39 "{a" and "class a{" were accepted
C15 9d777c0 "import, 'a'" and "import.a" were accepted
C08 7c3c1c5 "import 'a';" gained an empty statement
C03 82413d4 "try{}finally{}" was generated without the finally keyword
C03 9c9e221 "function*a(){}" was generated as "function a(){}"
C08 9d1ca75 "debugger;" and "do a;while(b);" gained an empty statement
C03 ae5ac72 "if(a);else b" was generated without the empty statement
C03 869dbe8 "debugger;a" was generated as "debuggera"
C03 9754d8a import "it's" was generated as a broken string
C03 3adc543 "(a,b)+c", "(a=b).c" and the like lost their parentheses
C03 b76f0cf "[(a,b)]" and the like lost their parentheses
C03 9dff41c "({}).a" and "(function(){})" lost their parentheses at the start of a statement
C03 567cec6 "a=>({})" was generated as "a=>{}"
C03 2a26ebe "a+ +b" was generated as "a++b"
C03 ab796a4 "a/ /b/" was generated as a comment
C03 ba64e92 "1 .a" was generated as "1.a"
C07 bfca75e "a**b**c" was left-associative
C09 8803e6e ends of calls, members, arrays, objects and others were the end of the next token
C09 5159bde "var a\\nb": the declaration ended with the next token
C09 a4c1efc "import 'a'" started at its source
C07 e3d8421 "new a().b" took .b as part of the operand
C03 7b5e130 "new (a())()" lost its parentheses
C05 21e4f0b "0x" and "1e" were numbers
C11 de3528e serialising "new a" panicked
C11 30705ec serialising "class a{b=c}" panicked; computed methods were not marked
C11 c34c60f serialising "var [,a]=b" panicked
C11 dbb6b68 serialising "/é/" panicked
C11 00dbfce serialising "99999999999999999999" and "1e3" panicked
C12 7a21357 visiting an import popped a parent never pushed
C12 441613f names and sources of imports were visited as references used
C12 f66680b names in new.target were visited as references used
C13 8307e60 names declared by object patterns and rest elements were references used instead
C12 bd95ad1 on_statement_list was not called for the program itself
C09 0ad14da the position of the name of a getter or setter was that of get or set
C08 ec44dd7 "for(a in b in c)d" iterated over c with the target a in b; "for(a in b,c)d" was rejected
C03 5a66db4 "for((a in b);;)c" was generated without its parentheses
C03 1c58ef1 "a**(b*c)" was generated without its parentheses
C06 e9bc95b "throw" could be followed by a line break
C06 f1b3b69 "a", a line break and "=>b" was an arrow function
C06 4493b42 "()", a line break and "=>b" was an arrow function
C15 8db79ab a string literal with an unescaped line break in it was accepted
C15 7a3beaa a regular expression with an escaped line break in it was accepted
C15 1edf395 whatever follows a NUL character was ignored, "a\\0)" was accepted
C11 65fee34 legacy octal literals ("010") were serialised with the value of a decimal
C15 35d116a "class a{b=c d(){}}": a class field could be followed by another member without a separator
C10 03b8356 an error at the start of a line was reported at the end of the line before
C08 a6bade6 "in", "let", "var", "const", "interface" and the like were rejected as names of properties and class members ("a={in:b}")
C15 4508c6b "class a{get b=c}" was accepted (and lost its get)
C15 aa1835a keywords were accepted as shorthand properties ("a={if}")
C06 6f8d863 "a", a carriage return and "b" was rejected: it was no line break, and did not end a line comment
C07 18a6b4a "new (a())" was parsed as "new a()"
C06 3a5f237 "a=()=>{}", a line break and "(b)" was a call of the arrow function; "()=>{}+b" was accepted
C07 f2b5e31 a regular expression that starts with "=" was rejected
C03 eccbb69 "import.a.b" was printed as "(import.a).b", which is no program
"""
d = {"fixed": [], "findings": []}
for l in FIXED.strip().splitlines():
    p, c, w = l.split(" ", 2)
    d["fixed"].append("fixed: property=%s %s %s" % (p, c, w))
json.dump(d, open(os.path.join(V, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
