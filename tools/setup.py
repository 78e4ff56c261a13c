"""Builds what the checks need ahead of time; every check builds what is missing itself."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, drivers as D
vf.parallel(lambda f: f(), [lambda: D.command("py"), lambda: D.command("cc"), lambda: D.command("ref"), lambda: D.command("lua"), lambda: vf.build_app()])
print("setup done")
