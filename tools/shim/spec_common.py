exec(open('/verif/sa/specs/common.py').read())
