"""debug: run one job in-process, dump undecided obligations"""
import sys, time, os
import driver, checks, se, ll, z3
pid, jname = sys.argv[1], sys.argv[2]
pin = eval(sys.argv[3]) if len(sys.argv) > 3 else {}
ctx = driver.Ctx()
try:
    job = dict([j for j in (checks.CHECKS.get(pid) or checks.WIP[pid])['jobs'] if j['name'] == jname][0])
    mod = ll.parse(open(ctx.ir(job)).read())
    o = dict(job.get('opts', {})); o['pin'] = pin; o["trace"] = False
    o['deadline'] = time.time() + float(os.environ.get('DL', '300'))
    e = se.Engine(mod, o)
    t = time.time()
    try:
        e.run('vp_main')
    except Exception as x:
        print('EXC', x, e.where(e.cur))
    print('explore', time.time() - t, e.stats, e.ends)
    for i, ob in enumerate(e.obl):
        print(i, ob.kind, ob.msg, ob.where, ob.status, len(ob.pc), round(ob.secs, 2), ob.model and [(a, hex(c)) for a, b, c in ob.model])
        if ob.status is None:
            for d in (1, 2, 3, 99):
                pc, full = driver.slice_pc(ob.pc, ob.neg, d) if d != 99 else (ob.pc, True)
                open('/tmp/p/ob%d_s%d.smt2' % (i, d), 'w').write(driver.smt2(pc, ob.neg))
finally:
    ctx.close()
