"""Forwarding headers for the miniature SOFA of harness/sofa_stub: every <sofa/...> or <Sofa.../...> header named anywhere in
src/SofaCaribou (and a few well-known neighbours) is written as a one-line file that includes minisofa.h."""
import glob, os, re, sys

EXTRA = '''sofa/config.h sofa/version.h sofa/type/Vec.h sofa/type/Mat.h sofa/type/vector.h sofa/type/fixed_array.h sofa/type/RGBAColor.h sofa/type/BoundingBox.h
sofa/helper/vector.h sofa/helper/fixed_array.h sofa/helper/accessor.h sofa/helper/logging/Messaging.h sofa/helper/logging/MessageDispatcher.h sofa/helper/ScopedAdvancedTimer.h
sofa/helper/types/RGBAColor.h sofa/helper/OptionsGroup.h sofa/helper/AdvancedTimer.h sofa/defaulttype/Mat.h sofa/defaulttype/Vec.h sofa/defaulttype/VecTypes.h
sofa/defaulttype/MapMapSparseMatrix.h sofa/defaulttype/BaseMatrix.h sofa/defaulttype/BaseVector.h sofa/core/objectmodel/Base.h sofa/core/objectmodel/BaseContext.h
sofa/core/objectmodel/BaseNode.h sofa/core/objectmodel/BaseLink.h sofa/core/objectmodel/Link.h sofa/core/objectmodel/Data.h sofa/core/objectmodel/Event.h
sofa/core/ExecParams.h sofa/core/MultiVecId.h sofa/core/VecId.h sofa/core/ConstraintParams.h sofa/core/BaseState.h sofa/core/State.h sofa/core/BaseMapping.h sofa/core/Mapping.h
sofa/core/behavior/BaseMechanicalState.h sofa/core/behavior/MechanicalState.h sofa/core/behavior/BaseForceField.h sofa/core/behavior/ForceField.h sofa/core/behavior/ForceField.inl
sofa/core/behavior/MultiMatrixAccessor.h sofa/core/behavior/MultiVec.h sofa/core/behavior/MultiMatrix.h sofa/core/behavior/LinearSolver.h sofa/core/visual/DrawTool.h
sofa/simulation/Node.h sofa/simulation/Visitor.h sofa/simulation/MechanicalVisitor.h sofa/simulation/Simulation.h SofaBaseMechanics/MechanicalObject.h SofaBaseLinearSolver/FullVector.h'''.split()

def generate(repo, out):
    names = set(EXTRA)
    src = os.path.join(repo, 'src', 'SofaCaribou')
    for d, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(('.h', '.inl', '.cpp', '.in')):
                for n in re.findall(r'#\s*include\s*<((?:sofa|Sofa)[^>]*)>', open(os.path.join(d, f), errors='replace').read()):
                    if not n.startswith(('SofaCaribou/', 'SofaPython3/')):
                        names.add(n)
    for n in names:
        p = os.path.join(out, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write('#pragma once\n#include "minisofa.h"\n')
    os.makedirs(os.path.join(out, 'SofaCaribou'), exist_ok=True)
    cfg = os.path.join(src, 'config.h.in')
    open(os.path.join(out, 'SofaCaribou', 'config.h'), 'w').write(open(cfg).read() if os.path.exists(cfg) else '#pragma once\n#include <Caribou/config.h>\n#include <sofa/config.h>\n#define CARIBOU_API\n#define DISABLE_ALL_WARNINGS_BEGIN\n#define DISABLE_ALL_WARNINGS_END\n')

if __name__ == '__main__':
    generate(sys.argv[1], sys.argv[2])
