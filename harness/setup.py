"""Parse every specification and import the code once in both backends."""
import os
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa: E402


def main():
    mods = sorted(f for f in os.listdir(lib.SPEC) if f.endswith(".tla"))
    with tempfile.TemporaryDirectory() as d:
        r = subprocess.run(
            ["java", f"-Djava.io.tmpdir={d}", "-cp", lib.TLA_CP, f"-DTLA-Library={lib.SPEC}",
             "tla2sany.SANY"] + [os.path.join(lib.SPEC, m) for m in mods],
            cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = [l for l in r.stdout.splitlines() if "*** Errors" in l or "Fatal" in l or "Could not" in l]
    if r.returncode or bad:
        print(r.stdout[-4000:])
        return 1
    for b in lib.BACKENDS:
        subprocess.run([lib.PYTHON, "-c", "import gpmp"], env=lib.driver_env(b), check=True,
                       stdout=subprocess.DEVNULL)
    print(f"{len(mods)} specifications parsed, both backends import")
    return 0


if __name__ == "__main__":
    sys.exit(main())
