#!/usr/bin/env python3-vt
"""python3-vt /verif/check.py <check> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path[:0] = [HERE, os.path.join(HERE, 'lib')]
import framework
sys.exit(framework.main(sys.argv[1:]))
