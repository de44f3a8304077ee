import subprocess,json
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
P={}
def m(h,ps):P[h]=ps
rules=[("truncated|cut off|ends inside","C03")]
out=[]
M={
'reading a character from an empty line':'C37','erasing a file':'C36','a position that cannot be set':'C36','after the last line was read':'C36','reading a whole file read':'C36',
'a failed string assertion':'C38','a not-a-number percentage':'C34','the derived integer comparisons':'C33','weak pointers kept':'C31','resetting a raw pointer wrapper':'C30',
'move-assigning a unique pointer held':'C30','releasing a unique pointer':'C30','assigning a raw pointer to a unique':'C30','assigning a shared pointer held':'C29','assigning a raw pointer to a shared':'C29',
'copying an empty shared':'C29','the last shared pointer never':'C29','a copy assignment of an expected':'C28','mapping an error to another':'C27','Filter can be':'C27','UnwrapOrDefault can':'C27',
'removing a JSON member':'C25','a JSON floating value is written':'C24','special characters in JSON':'C24','JSON numbers and booleans are made':'C24','constant access to a JSON':'C26','indexing a JSON array past':'C25',
'a JSON value can be assigned one of its own':'C25','a JSON string value is destroyed':'C25','a JSON \\u escape':'C22','JSON keys are read':'C22','a JSON number with a fraction':'C23','JSON literals are':'C23','a JSON string keeps':'C22',
'decimal numbers keep':'C19','the square root of a decimal':'C19','every JSON error':'C43','running the registered tests again':'C38',
'nothing but space may follow':'C21','deeply nested JSON':'C20','the JSON parser does not look':'C20','JSON text that consists':'C20','a sign alone':'C18','a big integer remainder':'C17','subtracting a big integer':'C16','adding big integers':'C16','of two negative':'C16',
'the empty pattern':'C15','appending to a copied builder':'C14','a \\u escape is the':'C13','an escape sequence that is not':'C13','the last non-space':'C12','repeating a text':'C12','a number formatted without':'C10','only ASCII digits are numbers':'C11',
'an empty format specification':'C11','a placeholder without an argument':'C09','a format specification after an index':'C09','IsDigit knows':'C07','uppercasing does not turn':'C08','in U+0139':'C08','lowercasing leaves':'C08','extended Greek':'C08','a string can be appended':'C05','do not read past the end of text':'C03','searching from past':'C04','ReverseFind returns':'C04','FindIf and FindIfNot':'C04'}
for l in reversed(log):
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    t=s[5:]
    p=[v for k,v in M.items() if t.startswith(k)]
    if not p: print('??',l); continue
    out.append(dict(property=p[0],id='FX-'+h,status='fixed',what='fixed: property=%s %s %s'%(p[0],h,t)))
open('/verif/known_findings.jsonl','w').write(''.join(json.dumps(o)+'\n' for o in out))
print(len(out))
