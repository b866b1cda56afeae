#!/bin/bash
# newseed.sh ID : records the uncommitted change of /repo as seeded/ID/patch.diff and undoes it.
mkdir -p /verif/seeded/$1
git -C /repo diff > /verif/seeded/$1/patch.diff
git -C /repo checkout -q -- .
[ -f /verif/seeded/$1/demo.sh ] || printf '#!/bin/bash\nexport PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' > /verif/seeded/$1/demo.sh
chmod +x /verif/seeded/$1/demo.sh
