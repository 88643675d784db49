import sys,json,resource,traceback,os
def main():
    job=json.load(open(sys.argv[1]))
    resource.setrlimit(resource.RLIMIT_AS,(job.get('mem',6)<<30,)*2)
    import threading
    threading.stack_size(512<<20)
    def go():
        try:
            from . import spec,run,llvm as LL
            h=spec.load(job['harness']); u=[x for x in h.units if x.name==job['unit']][0]
            mod=LL.Module(job['bc'])
            res=[]
            for ch in job['choices']:
                r=run.run_unit(mod,u,job['mode'],ch,job.get('extra'),job['budget']/max(1,len(job['choices'])) if job['mode']=='bounded' else job['budget'])
                res.append(r)
                json.dump(res,open(job['out']+'.tmp','w'),default=str); os.replace(job['out']+'.tmp',job['out'])
        except BaseException as e:
            json.dump([{'unit':job['unit'],'mode':job['mode'],'status':'error','error':repr(e)+traceback.format_exc()[-1500:]}],open(job['out'],'w'))
    t=threading.Thread(target=go); t.start(); t.join()
main()
