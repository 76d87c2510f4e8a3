"""Entry point of one exploration: explore_main.py JOB.json JAR_RD JAR_WR"""
import sys
import json
import os
import signal
import faulthandler

if __name__ == '__main__':
    if os.environ.get('VP_TRACE'):
        faulthandler.register(signal.SIGUSR1)
    job = json.load(open(sys.argv[1]))
    from vp import explore
    explore.run(job['ir'], job['entry'], job['cfg'], job['out'], job['seconds'], 1, (int(sys.argv[2]), int(sys.argv[3])))
