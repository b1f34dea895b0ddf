# t ID file old new : compact mutant result
t(){ /verif/tools/ns.sh /opt/venv/bin/python /verif/tools/trymut.py "$@" 2>&1 | grep -E "VIOL|quick:|not found|Error" | cut -c1-150; }
