import json,subprocess
M='''4c2d134 C01 centre wavelength in metres was off by 1e6 relative to nm
bfb7445 C03 derived grids were stale after a change of time window alone
1f4195c C06 editing a returned wavelength or frequency grid changed the pulse
78a8b33 C12 an invalid position argument altered the pulse before it was rejected
9933383 C35 intensity autocorrelation correlated the field with the intensity
40b4ab9 C23 FROG export used accessors that do not exist
b372351 C12 an unset unit was not reported (exception constructed, not raised)
2a84ceb C10 sinc pulse given as average power had another profile than given as peak power
3d77721 C34 noise pulse phase contained a second imaginary unit, so its amplitude was random
5b3243a C02 a field could not be set after the number of points changed
91b0dba C13 a pulse counted as ready before all settings were given
4b9b850 C23 propagation used the removed np.float alias
8d0e968 C21 coherence calculation ignored seed, output power and reloading options
5749e05 C23 gain-goal propagation used a repetition-rate accessor that does not exist
0fdb932 C23 Raman plots used a time grid accessor that does not exist
7687308 C16 the step clamp could leave a remainder, or overshoot, at the end of a stretch
8fba72d C21 result arrays were single precision instead of the documented type
768a044 C05 table conversion rescaled the caller's table in place
58d4791 C23 dispersion file reader used an option genfromtxt does not have
8f4f3b4 C04 all fibers shared one specification dictionary, and with it the database's
bdb939e C20 database fibers given per metre lost their dispersion
71377ee C20 index-format fibers used a speed of light in other units
6ca2616 C23 fiber gain used a repetition-rate accessor that does not exist
d9da5d3 C12 an unknown dispersion format gave -1 as propagation constant
a2ff42b C33 loading a fiber kept the position functions of the previous one
92f4943 C04 crystals overwrote the class's properties for all others
f17a732 C03 index cache was shared between crystals and kept after temperature or angle changed
82b0017 C23 poling chirp used an accessor that does not exist
c1e9797 C21 group velocity and dispersion failed for crystals with a default axis
c4f5756 C30 dispersion parameter of a crystal had the opposite sign
15a0f4b C23 AgGaS used the Python 2 exceptions module
a47c5c1 C23 field classes did not import on Python 3 and checked one index three times
5a205fd C17 the solver's first output was the end of the second step
6991fdb C17 an output without saves could not be used
a666831 C04 all solvers shared one step size controller
e3b0316 C17 a step with zero error estimate produced 0/0
bc644ba C22 importing the ODE steppers switched numpy's process-wide error handling
a6a7f11 C22 building a mixing problem opened a plot
56318eb C05 processing solver output modified the saved fields
40b8e05 C23 the file writer used attributes and PyTables calls that do not exist
2af4dd4 C29 diffraction angle of a scalar wavelength failed in spite of its warning
1301dfd C29 higher-order compressor dispersion was scaled for one order only
c8ad8a9 C13 the second read of a grid of an incomplete pulse failed with an unrelated error
5143af4 C35 spectrogram frequency axis was mirrored about the carrier
8872d36 C31 overlap integral ignored the reverse order option
09d2d62 C10 loading a spectrum analyser trace used attributes that do not exist and paired frequencies with the wrong powers
9cf4f5d C23 the dispersive wave script was not valid Python 3'''
def build(findings):
    full={l.split()[0][:7]:l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines() if ' fix:' in l}
    rows=[l.split(None,2) for l in M.splitlines()]
    assert {r[0] for r in rows}==set(full),set(full)^{r[0] for r in rows}
    json.dump({'findings':findings,'fixed':['fixed: property=%s %s %s'%(p,full[c],w) for c,p,w in rows]},open('/verif/known_findings.json','w'),indent=1)
if __name__=='__main__':
    build(json.load(open('/verif/known_findings.json'))['findings'])
