"""mkseed(id,prop,edits,needs,breaks,demo_c): writes seeded/<id>/ (patch against /repo's HEAD, demo, meta)."""
import os,subprocess,json,tempfile,shutil
V='/verif'
DEMO='''#!/bin/bash
# cwd /repo after the build; exit 0 when the property holds on this case
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
export HOME=$T
gcc -w -DHAVE_CONFIG_H -I/repo/_build/obj -I/repo/_build/obj/config -I/repo "$D/demo.c" -o "$T/demo" \\
  -L/repo/_build/obj/wizard/.libs -lWizardsToolkit -lm -lpthread || exit 3
cd "$T"; LD_LIBRARY_PATH=/repo/_build/obj/wizard/.libs timeout 250 ./demo
'''
def mkseed(id,prop,edits,needs,breaks,demo_c,demo_sh=None):
    d='%s/seeded/%s'%(V,id); os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(); subprocess.check_call(['git','-C',t,'init','-q'])
    for f,old,new in edits:
        src=subprocess.check_output(['git','-C','/repo','show','HEAD:'+f],text=True) if not os.path.exists(t+'/'+f) else open(t+'/'+f).read()
        p=t+'/'+f; os.makedirs(os.path.dirname(p),exist_ok=True)
        if not os.path.exists(p):
            open(p,'w').write(src); subprocess.check_call(['git','-C',t,'add',f])
        assert src.count(old)==1,(id,f,src.count(old),old)
        open(p,'w').write(src.replace(old,new))
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',t,'diff'],text=True)); shutil.rmtree(t)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write(demo_sh or DEMO); os.chmod(d+'/demo.sh',0o755)
    if demo_c: open(d+'/demo.c','w').write(demo_c)
