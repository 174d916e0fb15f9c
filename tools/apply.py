import importlib.util,os,shutil,sys
s=importlib.util.spec_from_file_location('m',sys.argv[1]); m=importlib.util.module_from_spec(s); s.loader.exec_module(m)
shutil.rmtree('/tmp/tt',ignore_errors=True); shutil.copytree('/repo','/tmp/tt')
for n,_,_,ed in m.MUT:
    if n==sys.argv[2]:
        for p,a,b in ed:
            q='/tmp/tt/'+p; t=open(q).read(); assert a in t; open(q,'w').write(t+b if a=='' else t.replace(a,b,1))
