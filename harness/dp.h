// Helpers shared by the dynamical-planner harnesses.
#pragma once
#include "mc.h"
#include <iDynTree/Core/EigenHelpers.h>
#include <iDynTree/Model/Model.h>
#include <iDynTree/ModelIO/ModelLoader.h>
namespace mc {
inline const iDynTree::Model& biped() {
    static iDynTree::Model m = [] {
        iDynTree::ModelLoader l;
        if (!l.loadModelFromFile(std::string(VERIF_DIR) + "/harness/biped.urdf")) { fprintf(stderr, "model\n"); _exit(9); }
        return l.model();
    }();
    return m;
}
// a different, smaller robot (the torso joint is welded)
inline const iDynTree::Model& bipedReduced() {
    static iDynTree::Model m = [] {
        iDynTree::ModelLoader l;
        if (!l.loadReducedModelFromFullModel(biped(), {"l_hip", "l_knee", "r_hip", "r_knee"})) _exit(9);
        return l.model();
    }();
    return m;
}
}
