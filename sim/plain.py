"""Runs in an interpreter of its own, without the simulator: python plain.py JOB.json
(the hash seed, the memory allocator's filling, the time zone and the working directory come from the environment)."""
import contextlib
import io
import json
import os
import sys


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    sys.dont_write_bytecode = True
    sys.path.insert(0, job['repo'])
    import matplotlib  # pylint: disable=import-outside-toplevel
    matplotlib.use('Agg')
    import pyowc as owc  # pylint: disable=import-outside-toplevel
    import pyowc.calibration  # noqa  pylint: disable=import-outside-toplevel,unused-import
    import pyowc.configuration  # noqa  pylint: disable=import-outside-toplevel,unused-import
    assert os.path.realpath(owc.__file__).startswith(os.path.realpath(job['repo']))
    with contextlib.redirect_stdout(io.StringIO()):
        for what in job['runs']:
            if what == 'map':
                owc.calibration.update_salinity_mapping(job['dir'], job['cfg'], job['name'])
            elif what == 'calseries':
                owc.configuration.set_calseries(job['dir'], job['name'], job['cfg'])
            else:
                owc.calibration.calc_piecewisefit(job['dir'], job['name'], job['cfg'])


main()
