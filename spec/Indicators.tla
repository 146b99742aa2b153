----------------------------- MODULE Indicators -----------------------------
(***************************************************************************)
(* The library as a family of deterministic (up to rounding) machines.     *)
(* Steps(k, p, B, i, st, L) is the set of steps machine k with parameters  *)
(* p may take on bar i of market B from state st: the next state and what  *)
(* it publishes for the bar.  L is what the implementation showed, used    *)
(* only to continue from a value the definition leaves open.               *)
(***************************************************************************)
EXTENDS Averages, Extremes, Volatility, Momentum, Volumes, Regression, Directional, Elementwise,
        Stops, Counting, Breakout, Structure, Derived

Steps(k, p, B, i, st, L) ==
  CASE k \in AverageKinds     -> AverageStep(k, p, B, i, st, L)
    [] k \in ExtremeKinds     -> ExtremeStep(k, p, B, i, st, L)
    [] k \in VolatilityKinds  -> VolatilityStep(k, p, B, i, st, L)
    [] k \in MomentumKinds    -> MomentumStep(k, p, B, i, st, L)
    [] k \in DifferenceKinds  -> DifferenceStep(k, p, B, i, st, L)
    [] k \in VolumeKinds      -> VolumeStep(k, p, B, i, st, L)
    [] k \in RegressionKinds  -> RegressionStep(k, p, B, i, st, L)
    [] k \in DirectionalKinds -> DirectionalStep(k, p, B, i, st, L)
    [] k \in ElementwiseKinds -> ElementwiseStep(k, p, B, i, st, L)
    [] k \in StopKinds        -> StopStep(k, p, B, i, st, L)
    [] k \in CountingKinds    -> CountingStep(k, p, B, i, st, L)
    [] k \in BreakoutKinds    -> BreakoutStep(k, p, B, i, st, L)
    [] k \in StructureKinds   -> StructureStep(k, p, B, i, st, L)
    [] k \in DerivedKinds     -> DerivedStep(k, p, B, i, st, L)
=============================================================================
