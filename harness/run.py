import importlib, sys, os, traceback, json
import common


def main():
    pid = sys.argv[1]
    import registry
    modname = registry.CHECKS[pid]
    try:
        mod = importlib.import_module(modname)
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            with open(sys.argv[3]) as f:
                v = json.load(f)
            fn = mod.CASES[v["label"]]
            res = common._one(fn, v["case"])
            print("replay:", "no violation" if res is None else res[0])
            if res is not None:
                print(json.dumps(res[1], default=str, indent=1)[:4000])
                print("VIOLATION property=%s replay=%s" % (pid, sys.argv[3]))
                return 1
            return 0
        return mod.main(pid)
    except common.MachineryError as e:
        print("MACHINERY ERROR: %s" % e)
        return 3
    except Exception as e:
        tb = traceback.format_exc()
        print(tb)
        repo = os.environ.get("VERIF_REPO", "/repo")
        if any(f.filename.startswith(repo + "/") for f in traceback.extract_tb(e.__traceback__)):
            # raised inside the code under test while the driver used its public interface
            d = os.path.join(common.HOME, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-driver.json" % pid)
            with open(path, "w") as f:
                json.dump({"property": pid, "clause": "unexpected exception in driver", "traceback": tb}, f)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("MACHINERY ERROR")
        return 3


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
