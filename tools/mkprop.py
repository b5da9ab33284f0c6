import json
def P(id,title,statement,over,text,why,files,mech,technique,note,na=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]},
       "check":{"technique":technique,"note":note} if not na else {"not_applicable":na}}
    assert len(title)<=80,(id,len(title))
    json.dump(d,open(f"/verif/tools/props/{id}.json","w"),indent=1,ensure_ascii=False)
