#!/usr/bin/env python3
"""Decide one property:  python3 checks/run.py C01"""
import sys, os, traceback
if os.environ.get('PYTHONHASHSEED') != '0':
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))      # same run every time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frame
import importlib


def main():
    pid = sys.argv[1]
    ctx = frame.Ctx(pid)
    import props
    try:
        props.PROPS[pid](ctx)
    except Exception as e:
        traceback.print_exc()
        ctx.errors.append(f'{type(e).__name__}: {e}')
    return ctx.finish()


if __name__ == '__main__':
    sys.exit(main())
