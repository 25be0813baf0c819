#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the property texts).
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":mech}
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PARSE=["parser/lexer.go","parser/parser_common.go","parser/parser_query.go","parser/parser_column.go","parser/parser_table.go","parser/parser_alter.go","parser/parser_view.go","parser/parser_drop.go","parser/parse_system.go"]
AST=["parser/ast.go"]
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties_text.py")).read())
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
