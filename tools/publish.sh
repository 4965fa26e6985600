cd /verif && python3 tools/mkprops.py > properties.jsonl && python3 tools/mkmanifest.py && python3 tools/mkdesign.py && python3-vt tools/validate.py && git add -A && git commit -qm "$1" && git log --oneline | head -1
