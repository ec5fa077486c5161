import os, sys
os.environ['VERIF_DEBUG'] = '1'
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, '/verif')
import engine.check as C, importlib
importlib.import_module('contracts.' + sys.argv[1])
for name, f, funcs, bounded, limit in C.OBLIGATIONS:
    if name == sys.argv[2]:
        r = C.run_group(name, f, bounded)(None)
        for x in r['res']:
            print(x['status'], x['name'], x['t'], x['detail'] if x['status'] not in ('proved', 'bounded') else '')
        print(r['t'], r['called'])
