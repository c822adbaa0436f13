"""Worker process: runs case functions of one check module against a built coffe."""
import importlib.util
import os
import pickle
import struct
import sys
import traceback


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)  # anything the library prints goes to the (captured) stderr
    inp = sys.stdin.buffer
    path = sys.argv[1]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.setdlopenflags(os.RTLD_LAZY)
    spec = importlib.util.spec_from_file_location("check_module", path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["check_module"] = mod
    spec.loader.exec_module(mod)
    while True:
        head = inp.read(8)
        if len(head) < 8:
            break
        case = pickle.loads(inp.read(struct.unpack("<Q", head)[0]))
        try:
            res = {"ok": getattr(mod, case["fn"])(case)}
        except BaseException as e:  # noqa
            res = {"error": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()}
        data = pickle.dumps(res)
        out.write(struct.pack("<Q", len(data)) + data)
        out.flush()


if __name__ == "__main__":
    main()
