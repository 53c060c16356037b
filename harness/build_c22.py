# The harness under auto_test (its holders and generators) together with the library.
import os
def configure(conf, g):
    conf["files"] = conf["files"] + [os.path.join(g["REPO"], "auto_test", f) for f in ("sample.cpp", "basic.cpp")]
    conf["libs"] = ["-lgtest"]
    conf["per"] = {"c22.cpp": ["-fsanitize=return", "-fsanitize-trap=return"]}   # running off the end of a function is a trap
