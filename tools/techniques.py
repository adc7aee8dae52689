EVO = "TLA+ (spec/Evo.tla + spec/Words.tla), exhaustive TLC model checking; every TLC behaviour is replayed on real Dynamics objects"
OPT = "TLA+ (spec/Optim.tla + spec/Dyn.tla), TLC exhaustive and simulated; behaviours replayed on real optimisers with a scripted minimiser and clock"
NOTE = ("TLC exhausts the model within the stated bounds; conformance replays TLC's behaviours on the real code over "
        "random systems and configuration choices, so it covers the explored behaviours and systems only")
DUMP = "TLA+ (spec/Dump.tla), TLC exhaustive and simulated; behaviours replayed on real optimisers and dynamics, memory and files compared with the specified records"
TECH = {
 "P01": (EVO, NOTE), "P02": (EVO, NOTE), "P03": (EVO, NOTE), "P04": (EVO, NOTE),
 "P05": ("TLA+ (spec/Evo.tla, spec/Omega.tla), TLC; replay on real Dynamics objects", NOTE),
 "P06": (OPT, NOTE), "P07": (OPT, NOTE), "P08": (OPT, NOTE),
 "P10": (DUMP + "; plus spec/Optim.tla records", NOTE), "P11": (DUMP, NOTE),
 "P12": ("TLA+ (spec/Stats.tla, spec/Evo.tla, spec/Optim.tla), TLC; behaviours replayed on real Stats, Dynamics and Optimizer objects", NOTE),
}
PUL = "TLA+ (spec/Pulse.tla, spec/Fit.tla over exact rationals), TLC exhaustive and simulated; behaviours replayed on real pulse generators"
TECH.update({
 "P13": (PUL + "; pulses recorded from random and transcendental generators judged by TLC (spec/PulseTrace.tla)", NOTE),
 "P14": (PUL, NOTE),
 "P15": ("TLA+ (spec/Crab.tla, spec/CrabVars.tla), TLC exhaustive and simulated; behaviours replayed on real CRAB generators and optimisers", NOTE),
})
NA = {}
REC = "; complete runs recorded from the real code are judged by TLC (spec/RunTrace.tla + spec/Outcome.tla)"
TECH["P06"] = (OPT + REC, NOTE)
TECH["P07"] = (OPT + REC, NOTE)
TECH["P12"] = (TECH["P12"][0] + REC, NOTE)
TECH["P09"] = ("TLA+ (spec/Bounds.tla), TLC; configurations built on the real code, start, bounds given to the method and outcome compared" + REC, NOTE)
TECH["P16"] = ("TLA+ (spec/Timeslots.tla), TLC exhaustive and simulated; behaviours replayed on real Dynamics objects", NOTE)
TECH["P17"] = ("TLA+ (spec/Config.tla), TLC exhaustive over pairs of options and simulated over all of them; every call made on the real entry points and the configured objects compared", NOTE)
TECH["P18"] = ("TLA+ (spec/Config.tla), TLC as for P17; every call compared with the equivalent call of the general function, same seed", NOTE)
TECH["P19"] = ("TLA+ (spec/LoadParams.tla), TLC exhaustive and simulated; every history of files written and loaded into real objects", NOTE)
TECH["P20"] = ("TLA+ (spec/Grape.tla, exhaustive TLC; behaviours replayed on the update routine) and runs recorded from the real routines judged by TLC (spec/GrapeTrace.tla)", NOTE)
TECH["P21"] = ("TLA+ (spec/SaveAmps.tla), TLC exhaustive and simulated; every history of pulses, saves and runs made on the real code in a scratch directory and the files compared", NOTE)
TECH["P22"] = ("TLA+ (spec/Evo.tla + spec/Words.tla), TLC; every old name compared with the specified operators at each settled point of replayed behaviours", NOTE)
TECH["P23"] = ("TLA+ (spec/Config.tla LogOnly, Evo.tla, Optim.tla), TLC; the specified calls, histories and runs replayed with and without logging at every level and everything observed compared", NOTE)
TECH["P24"] = ("TLA+ (spec/Assemble.tla), TLC exhaustive over groups of settings and simulated over all of them; every history of settings, initialisations, reads and runs performed on real objects", NOTE)
