import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
if not os.path.exists(vlib.JAR):
    sys.exit("tla2tools.jar is missing")
r = vlib.Run("setup")
r.driver()
r.cleanup()
