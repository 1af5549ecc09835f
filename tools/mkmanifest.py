import json
H="exhaustive enumeration of operation histories on the real engine against a reference model"
C="exhaustive enumeration of bounded configurations and requests on the real engine against a reference model"
I="exhaustive enumeration of all inputs up to a size on the real function against a reference definition"
T=dict(C01=C,C02=C,C03=C,C04=H+", clock enumerated in a virtual-time bubble",C05=H,C06=H,C07=H,C08=C,C09=C+", log records captured",
 C11=I,C12=C,C13=C,C14=C,C15=H,C16=H,C17=C,C18=H,C19=H,C20=H,C22=C,C23=H,C24=H,C25=I,C26=H,C27=H,C28=I,C29=H,C30=H,C31=H,C32=H,C33=H,
 C10="stateless model checking: preemption-bounded exhaustive enumeration of thread schedules of the instrumented real code",
 C21="stateless model checking: preemption-bounded exhaustive enumeration of thread schedules of the instrumented real code")
NA=dict()
import os
todo=[x for x in os.environ.get('TODO','').split(',') if x]
checks=[];na=[]
for l in open('/verif/properties.jsonl'):
    id=json.loads(l)['id']
    if id in todo:
        na.append(dict(property=id,reason="check under construction")); continue
    conc=id in('C10','C21')
    checks.append(dict(property=id,quick_cmd=f"bash run.sh {id} quick",thorough_cmd=f"bash run.sh {id} thorough",technique=T[id],level="model_checking",
      level_note=("Every schedule of the listed scenarios up to the preemption bound is executed on the real code, with scheduling points at every statement and lock operation; "
        "results are compared with all sequential orders. Trusted: the source instrumenter, the sync shim, the reference model; bounds: threads, calls, preemptions per scenario (evidence)."
        if conc else
        "Every case of the listed finite spaces is executed on the code built from /repo and every answer compared with an independent reference model; complete within the bounds in the evidence file, nothing sampled. "
        "Trusted: the reference model and the driver; behaviour beyond the bounds is not explored.")))
json.dump(dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,notes="Model checking of the real code; see DESIGN.md."),open('/verif/MANIFEST.json','w'),indent=1)
