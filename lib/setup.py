"""builds everything the checks use"""
import sys
sys.dont_write_bytecode = True
import build
print("%.1fs" % build.ensure(list(build.DRIVERS)))
