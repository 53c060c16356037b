import os
def configure(conf, g):
    conf["files"] = conf["files"] + [os.path.join(g["REPO"], "auto_test", "basic.cpp")]
    conf["libs"] = ["-lgtest"]
