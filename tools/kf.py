import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().splitlines()
m={'chain rule':'M01','product of dW/dx':'M03','copy the points':'M01','spatial derivative of thin':'M02','without a source':'M03','shares the features':'M06','order of the transforms':'M06','noise type by value':'M18','uniform scale noise':'M18','noise percentages':'M18','multi-scale parameters given':'M19','one patch shape':'M19','sampling masks':'M19','number of iterations of a Lucas':'M10','parametric cascaded':'M10','whose budget allows':'M09','alignment similarity after':'M03','image normalisation of the ECC':'M11','gradient images residual':'M11','gradient correlation residual':'M11','forward additive ECC':'M11','filtered SSD':'M11','convolution mode':'M23','less than two pixels':'M23','dlib detections':'M25','own copy of the weights':'M04','incremented shape model':'M04'}
try: m.update(json.load(open('/tmp/kf_extra.json')))
except Exception: pass
out=[]
known=[]
try:
    for l in open('/verif/known_findings.jsonl'):
        e=json.loads(l)
        if e['status']=='known': known.append(l.strip())
except FileNotFoundError: pass
for l in reversed(log):
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    k=[v for q,v in m.items() if q in s]
    assert k,s
    out.append(json.dumps({"status":"fixed","property":k[0],"commit":h,"line":"fixed: property=%s %s %s"%(k[0],h,s[5:])}))
open('/verif/known_findings.jsonl','w').write('\n'.join(out+known)+'\n')
print(len(out))
