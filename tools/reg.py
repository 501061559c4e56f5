import sys
# reg.py feature file CONST...
feat,f,*cs=sys.argv[1:]
p='/verif/harness/src/main.rs';t=open(p).read()
if f'mod {f};' not in t:
    t=t.replace('\nfn main()',f'#[cfg(feature = "{feat}")]\nmod {f};\n\nfn main()').replace('\n\n#[cfg','\n#[cfg')
for c in cs:
    l=f'        #[cfg(feature = "{feat}")]\n        {f}::{c},\n'
    if l not in t: t=t.replace('    ];\n    covrt',l+'    ];\n    covrt')
open(p,'w').write(t)
