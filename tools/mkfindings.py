import subprocess,re
rows=subprocess.run("git -C /repo log --reverse --format='%h %s' bee5b24..HEAD",shell=True,text=True,capture_output=True).stdout.splitlines()
K=[("program after an error","C25"),("default clause|with statement in strict|line end|current position|missing property value|for await without|missing template part|missing generator method","C10"),("comment stands|looking one token","C07"),("identifier name is a word","C02"),("reserved|contextually|names|null","C12"),
("break and continue|for await only|super and new.target","C13"),("try block|statement is allowed|for head|let declaration|for loop|left of of","C06"),("return statement","C07"),("import|export|from and","C17"),
("strict|legacy","C19"),("rest|pattern|target|initialized name|sequence","C15"),("yield|arrow|async|generator|parameter","C14"),("method|class|superclass|object literal|property value","C16"),("exponent","C04"),("template|new expression","C05"),("iteration","C21"),("prologue","C19")]
out=[]
for r in rows:
    h,s=r.split(' ',1); m=s[5:]
    pid=next((p for k,p in K if re.search(k,m)),"C03")
    out.append(f"fixed: property={pid} {h} {"an identifier name could be any token" if "identifier name is" in m else "the parser did not "+m}")
open('/verif/known_findings.txt','w').write("# Findings about /repo. Lines starting with 'fixed:' record repaired defects and suppress nothing;\n# a JSON line with \"status\":\"known\" (property, input, module, what) would list a defect left in place. There is none.\n"+"\n".join(out)+"\n")
