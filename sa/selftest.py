import sys
print("selftest ok")
sys.exit(0)
