#!/usr/bin/python3
"""entry point: check.py <property id>  (static analysis of /repo's working tree)"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
	sys.setrecursionlimit(20000)
	import threading
	threading.stack_size(512 * 1024 * 1024)
	rc = [2]
	def main():
		m = importlib.import_module('sa.checks.' + sys.argv[1].lower())
		rc[0] = m.main()
	t = threading.Thread(target=main)
	t.start()
	t.join()
	sys.stdout.flush()
	sys.exit(rc[0])
