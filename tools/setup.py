"""Checks that everything that is needed is there: nothing has to be built."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "harness"))
import campaign, tlc
for jar in tlc.JARS.split(":"):
    assert os.path.exists(jar), jar
subprocess.run([campaign.PYTHON, "-c", "import observ, PySide6, pygfx"], check=True,
               env={**os.environ, "QT_QPA_PLATFORM": "offscreen"})
subprocess.run(["java", "-version"], check=True, capture_output=True)
print("ok")
