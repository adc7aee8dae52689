------------------------------- MODULE Outcome -------------------------------
(* What a return of the minimiser with code w means, per optimiser class.     *)
Returned(class, w) ==
  CASE class = "BFGS" /\ w = 0 -> [why |-> "ret-gradmin", flags |-> {"grad_norm_min_reached"}]
    [] class = "BFGS" /\ w = 1 -> [why |-> "ret-maxiter", flags |-> {"max_iter_exceeded"}]
    [] class = "BFGS" /\ w = 2 -> [why |-> "ret-precision", flags |-> {}]
    [] class = "LBFGSB" /\ w = 0 -> [why |-> "ret-converged", flags |-> {"grad_norm_min_reached"}]
    [] class = "LBFGSB" /\ w = 10 -> [why |-> "ret-converged", flags |-> {}]     \* on the error reduction
    [] class = "LBFGSB" /\ w = 1 -> [why |-> "ret-limit", flags |-> {"max_iter_exceeded"}]
    [] class = "LBFGSB" /\ w = 2 -> [why |-> "ret-task", flags |-> {}]
    [] class = "FMIN" /\ w = 0 -> [why |-> "ret-tolerance", flags |-> {}]
    [] class = "FMIN" /\ w = 1 -> [why |-> "ret-maxfun", flags |-> {"max_fid_func_exceeded"}]
    [] class = "FMIN" /\ w = 2 -> [why |-> "ret-maxiter-f", flags |-> {"max_iter_exceeded"}]
    [] OTHER -> [why |-> "ret-message", flags |-> {}]
=============================================================================
