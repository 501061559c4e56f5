#!/bin/bash
# mkdemo.sh ID 'FEATURES' 'EXTRA DEPENDENCY LINES': writes seeded/ID/demo.sh from the template
F=$(echo "$2" | sed 's/\([^,]*\)/"\1"/g'); D=$3
python3 - "$1" "$F" "$D" <<'P'
import sys
i,f,d=sys.argv[1:]
s=open('/verif/tools/demo_template.sh').read().replace('@F@',f).replace('@D@',d)
open(f'/verif/seeded/{i}/demo.sh','w').write(s)
P
chmod +x /verif/seeded/$1/demo.sh
