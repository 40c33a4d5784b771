import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib


def main():
    prop = sys.argv[1]
    fns = {}
    import runtime
    for m in (runtime,):
        for k in dir(m):
            if len(k) == 3 and k[0] == 'c' and k[1:].isdigit():
                fns[k.upper()] = getattr(m, k)
    try:
        import compiletime
        for k in dir(compiletime):
            if len(k) == 3 and k[0] == 'c' and k[1:].isdigit():
                fns[k.upper()] = getattr(compiletime, k)
    except ModuleNotFoundError:
        pass
    ck = vlib.Check(prop)
    try:
        return fns[prop](ck)
    except vlib.Broken as e:
        print(f'ERROR (no verdict): {e}')
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
