HARNESSES = {
    "strings": dict(src=["h_strings.cc"], repo=["common/StringTools.cc"]),
    "params": dict(src=["h_params.cc"], shims=[""], repo=[
        "common/StringTools.cc", "common/ParameterValue.cc", "common/ParameterSet.cc",
        "common/ParameterSetImpl.cc", "common/ParameterRecord.cc", "common/NodeDesc.cc"]),
    "data": dict(src=["h_data.cc"], repo=[
        "base/Apply.cc", "base/SubtractMixed.cc", "common/DataConvert.cc", "common/Fields.cc",
        "common/PrettyUnits.cc"]),
    "fit": dict(src=["h_fit.cc"], flags=["-I/usr/include/eigen3"], repo=[
        "base/PhaseFitter.cc", "ddecal/SolutionResampler.cc", "ddecal/linear_solvers/LLSSolver.cc",
        "ddecal/constraints/TecOffsetDelayFitting.cc"],
        libs=["-lgsl", "-lgslcblas", "-llapack", "-lopenblas"]),
    "model": dict(src=["h_model.cc"], shims=[""], repo=[
        "base/PointSource.cc", "base/GaussianSource.cc", "base/ComponentInfo.cc", "base/Stokes.cc", "base/CalType.cc",
        "sky_model/Patch.cc", "sky_model/PatchInfo.cc"]),
    "grid": dict(src=["h_grid.cc"], shims=[""], repo=[
        "parmdb/Axis.cc", "parmdb/AxisMapping.cc", "parmdb/Box.cc", "parmdb/Grid.cc", "parmdb/Parm.cc",
        "parmdb/ParmCache.cc", "parmdb/ParmSet.cc", "parmdb/ParmValue.cc", "parmdb/ParmDB.cc", "parmdb/ParmDBLocker.cc",
        "parmdb/ParmDBMeta.cc"]),
}
STEP_BASE = ["base/DPBuffer.cc", "base/DPInfo.cc", "base/BdaBuffer.cc", "common/Fields.cc", "steps/Step.cc",
             "common/StringTools.cc", "common/ParameterValue.cc", "common/ParameterSet.cc",
             "common/ParameterSetImpl.cc", "common/ParameterRecord.cc"]
def steps(src, *repo, **kw):
    return dict(src=[src], shims=[""], flags=["-I/usr/include/eigen3"], repo=STEP_BASE + list(repo), **kw)
HARNESSES["info"] = steps("h_info.cc")
HARNESSES["avg"] = steps("h_avg.cc", "steps/Averager.cc", "steps/Upsample.cc", "steps/BDAAverager.cc", "steps/BdaExpander.cc",
                         "base/UVWCalculator.cc", "base/FlagCounter.cc")
HARNESSES["flag"] = steps("h_flag.cc", "steps/PreFlagger.cc", "steps/UVWFlagger.cc", "base/UVWCalculator.cc", "base/FlagCounter.cc",
                          "base/BaselineSelection.cc")
HARNESSES["trans"] = steps("h_trans.cc", "steps/PhaseShift.cc", "steps/StationAdder.cc", "steps/ScaleData.cc", "steps/NullStokes.cc",
                           "steps/Combine.cc", "steps/Interpolate.cc", "base/UVWCalculator.cc", "base/FlagCounter.cc")
G = "ddecal/gain_solvers/"
HARNESSES["gain"] = steps("h_gain.cc", *[G + x + ".cc" for x in (
    "BdaSolverBuffer", "SolveData", "SolverTools", "SolverBase", "ScalarSolver", "DiagonalSolver", "FullJonesSolver",
    "HybridSolver", "IterativeScalarSolver", "IterativeDiagonalSolver", "IterativeFullJonesSolver",
    "DiagonalLowRankSolver", "DiagonalAntennaSolver")], "ddecal/constraints/Constraint.cc",
    "ddecal/linear_solvers/LLSSolver.cc", libs=["-lgsl", "-lgslcblas", "-llapack", "-lopenblas"])
HARNESSES["gdata"] = steps("h_gdata.cc", *[G + x + ".cc" for x in ("BdaSolverBuffer", "SolveData", "SolverTools")])
K = "ddecal/constraints/"
HARNESSES["cons"] = steps("h_cons.cc", *[K + x + ".cc" for x in (
    "Constraint", "AntennaIntervalConstraint", "FaradayConstraint", "PolarizationLeakageConstraint", "RotationAndDiagonalConstraint",
    "RotationConstraint", "SmoothnessConstraint", "TecConstraint", "TecOffsetDelayConstraint", "TecOffsetDelayFitting")],
    "base/PhaseFitter.cc", "base/CalType.cc", "ddecal/linear_solvers/LLSSolver.cc", libs=["-lgsl", "-lgslcblas", "-llapack", "-lopenblas"])
HARNESSES["ddecal"] = steps("h_ddecal.cc", "steps/DDECal.cc", "steps/MultiResultStep.cc", "steps/ResultStep.cc", "steps/UVWFlagger.cc", "steps/MsColumnReader.cc",
    *["ddecal/" + x + ".cc" for x in ("SolverFactory", "SolutionWriter", "InitialSolutions", "Settings", "SolutionResampler")],
    *[G + x + ".cc" for x in ("SolveData", "SolverTools", "SolverBase", "ScalarSolver", "DiagonalSolver", "FullJonesSolver",
    "HybridSolver", "IterativeScalarSolver", "IterativeDiagonalSolver", "IterativeFullJonesSolver", "DiagonalLowRankSolver", "DiagonalAntennaSolver")],
    *[K + x + ".cc" for x in ("Constraint", "AntennaIntervalConstraint", "FaradayConstraint", "PolarizationLeakageConstraint", "RotationAndDiagonalConstraint",
    "RotationConstraint", "SmoothnessConstraint", "TecConstraint", "TecOffsetDelayConstraint", "TecOffsetDelayFitting")],
    "base/PhaseFitter.cc", "base/CalType.cc", "base/UVWCalculator.cc", "base/FlagCounter.cc", "ddecal/linear_solvers/LLSSolver.cc",
    libs=["-lgsl", "-lgslcblas", "-llapack", "-lopenblas"])
HARNESSES["ddecal"]["flags"] += ["-DMINIXT_ZERO_CPLX=1", "-DMETADATA_COMPRESSION_DEFAULT=false"]
HARNESSES["sim"] = steps("h_sim.cc", "base/Simulator.cc", "base/Simulate.cc", "base/PointSource.cc", "base/GaussianSource.cc", "base/Stokes.cc",
                         "steps/PhaseShift.cc", "base/UVWCalculator.cc", "base/FlagCounter.cc", "sky_model/Patch.cc")
HARNESSES["sky"] = dict(src=["h_sky.cc"], shims=[""], flags=["-I/usr/include/eigen3"], repo=["sky_model/" + x + ".cc" for x in (
    "Patch", "PatchInfo", "ReadSkyModel", "SkyModel", "SkyModelFunctions", "SkyModelSelection", "Source", "SourceInfo")] + [
    "base/PointSource.cc", "base/GaussianSource.cc", "base/Stokes.cc", "common/StringTools.cc", "common/ParameterValue.cc",
    "common/ProximityClustering.cc", "parmdb/ParmValue.cc", "parmdb/Grid.cc", "parmdb/Axis.cc", "parmdb/Box.cc"])
HARNESSES["stef"] = dict(src=["h_stef.cc"], shims=[""], repo=["base/GainCalAlgorithm.cc"])
HARNESSES["mad"] = steps("h_mad.cc", "steps/MadFlagger.cc", "steps/AntennaFlagger.cc", "antennaflagger/Flagger.cc", "base/FlagCounter.cc")
HARNESSES["mad"]["flags"] += ["-DMINIXT_ZERO_CPLX=1"]
HARNESSES["chain"] = steps("h_chain.cc", *["steps/" + x + ".cc" for x in (
    "AntennaFlagger", "Averager", "BDAAverager", "Combine", "Counter", "Filter", "Interpolate", "MadFlagger", "NullStokes", "PhaseShift",
    "PreFlagger", "ScaleData", "StationAdder", "UVWFlagger", "Upsample")], "antennaflagger/Flagger.cc", "base/FlagCounter.cc",
    "base/UVWCalculator.cc", "base/BaselineSelection.cc")
HARNESSES["chain"]["flags"] += ["-DMINIXT_ZERO_CPLX=1"]
_MSREADER = '\n'.join('#include ' + x for x in ('"steps/MsReader.h"', '"base/FlagCounter.h"', '<tuple>', '<algorithm>', '<cmath>', '<string>', '<stdexcept>',
    '<casacore/casa/Containers/Record.h>', '<casacore/tables/TaQL/ExprNode.h>', '<casacore/tables/TaQL/RecordGram.h>')) + \
    '\nusing namespace casacore;\nusing namespace dp3::base;\n'
HARNESSES["chain"]["extract"] = [("steps/MsReader.cc", "MsReader::" + f, _MSREADER, "namespace dp3 { namespace steps {")
                                 for f in ("ParseChannelSelection", "FlagInfinityNan")] + [
    ("base/DP3.cc", "GetChainRequiredFields", '#include "steps/Step.h"\n#include "common/Fields.h"\n#include <memory>\nusing dp3::steps::Step;', "namespace dp3 { namespace base {")]
HARNESSES["dp3"] = dict(src=["h_dp3.cc"], shims=["dp3", ""], flags=list(HARNESSES["chain"]["flags"]), repo=["base/DP3.cc", "base/ProgressMeter.cc", "steps/Step.cc"])
HARNESSES["ms"] = steps("h_ms.cc", "steps/MsReader.cc", "steps/MSUpdater.cc", "steps/MsColumnReader.cc", "steps/MultiMsReader.cc", "steps/ResultStep.cc", "steps/InputStep.cc", "steps/MSBDAReader.cc",
    "steps/MSBDAWriter.cc", "steps/BDAAverager.cc", "base/FlagCounter.cc", "base/UVWCalculator.cc", "base/BaselineSelection.cc", "base/MS.cc")
HARNESSES["ms"]["flags"] += ["-DMINIXT_ZERO_CPLX=1", "-DMETADATA_COMPRESSION_DEFAULT=false"]
HARNESSES["transfer"] = steps("h_transfer.cc", "steps/Transfer.cc", "steps/FlagTransfer.cc", "steps/Filter.cc", "steps/MsReader.cc", "steps/ResultStep.cc", "steps/InputStep.cc", "base/FlagCounter.cc", "base/UVWCalculator.cc", "base/BaselineSelection.cc", "base/MS.cc")
HARNESSES["transfer"]["flags"] += ["-DMINIXT_ZERO_CPLX=1", "-DMETADATA_COMPRESSION_DEFAULT=false"]
HARNESSES["mswriter"] = steps("h_mswriter.cc", "steps/MsReader.cc", "steps/MSWriter.cc", "steps/Averager.cc", "steps/ResultStep.cc", "steps/InputStep.cc", "base/FlagCounter.cc", "base/UVWCalculator.cc", "base/BaselineSelection.cc", "base/MS.cc")
HARNESSES["mswriter"]["flags"] += ["-DMINIXT_ZERO_CPLX=1", "-DMETADATA_COMPRESSION_DEFAULT=false"]
HARNESSES["applycal"] = steps("h_applycal.cc", "steps/ApplyCal.cc", "steps/OneApplyCal.cc", "parmdb/ParmFacade.cc", "parmdb/ParmDBMeta.cc", "base/FlagCounter.cc")
HARNESSES["applycal"]["flags"] += ["-DMINIXT_ZERO_CPLX=1"]
HARNESSES["solwriter"] = steps("h_solwriter.cc", "ddecal/SolutionWriter.cc", "ddecal/InitialSolutions.cc", "ddecal/Settings.cc", "ddecal/SolutionResampler.cc", "ddecal/linear_solvers/LLSSolver.cc", "base/CalType.cc", libs=["-lgsl", "-lgslcblas", "-llapack", "-lopenblas"])
