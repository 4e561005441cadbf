from vg.oblig import Obl, calls, refusals
P = "aspsim.room.trajectory."
S = "spec.paths."
DRAWN = calls("plot", grp="lines drawn")


def tr(name, driver, *see):
    return Obl(f"{name}: {driver}", "paths." + driver, {"T": (P + name, S + name)}, see=[refusals(), *see], ignore=())


OBLIGATIONS = [
    tr("Trajectory", "given"), tr("TrajectoryCollection", "several"), tr("TrajectoryCollection", "any_number"),
    tr("LinearTrajectory", "linear"), tr("LinearTrajectory", "linear_plain"), tr("LinearTrajectory", "listed"),
    tr("CircularTrajectory", "circular"), tr("CircularTrajectory", "circular_plain"),
    tr("LinearTrajectory", "linear_drawn", DRAWN), tr("CircularTrajectory", "circular_drawn", DRAWN),
]
