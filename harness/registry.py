import p_evo, p_optim, p_stats, p_dump, p_pulse, p_crab, p_tslots, p_bounds, p_config, p_params, p_grape, p_save, p_log, p_assemble
CHECKS = {p: p_evo.run for p in ("P01", "P02", "P03", "P04", "P05", "P22")}
CHECKS.update({p: p_optim.run for p in ("P06", "P07", "P08")})
CHECKS["P09"] = p_bounds.run
CHECKS["P12"] = p_stats.run
CHECKS.update({p: p_dump.run for p in ("P10", "P11")})
CHECKS.update({p: p_pulse.run for p in ("P13", "P14")})
CHECKS["P15"] = p_crab.run
CHECKS["P16"] = p_tslots.run
CHECKS.update({p: p_config.run for p in ("P17", "P18")})
CHECKS["P19"] = p_params.run
CHECKS["P20"] = p_grape.run
CHECKS["P21"] = p_save.run
CHECKS["P23"] = p_log.run
CHECKS["P24"] = p_assemble.run
