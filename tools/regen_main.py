import re,os,glob
R=os.environ.get('VROOT','/verif')
p=R+'/local/src/main.rs'; s=open(p).read()
mods=sorted(os.path.basename(f)[:-3] for f in glob.glob(R+'/local/src/c[0-9][0-9].rs'))
s=re.sub(r'(mod c\d\d;\n)+',"".join(f"mod {m};\n" for m in mods),s)
s=re.sub(r'(        "C\d\d" => .*\n)+',"".join(f'        "{m.upper()}" => {m}::run(s),\n' for m in mods),s)
open(p,'w').write(s)
