#!/usr/bin/env python3
"""Multiply the case counts of a law file: scale.py FILE QUICK_FACTOR [THOROUGH_FACTOR]"""
import re,sys
f=sys.argv[1]; q=float(sys.argv[2]); t=float(sys.argv[3]) if len(sys.argv)>3 else q
s=open(f).read()
s=re.sub(r'LAW\( (\w+), (\d+), (\d+),',lambda m:'LAW( %s, %d, %d,'%(m[1],int(int(m[2])*q),int(int(m[3])*t)),s)
open(f,'w').write(s)
