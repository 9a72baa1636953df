// The same use of the whole library, compiled in two translation units of one program.
#include "mon.h"
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/Matrix.h>
#include <GooseFEM/MatrixPartitioned.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
#include <GooseFEM/TyingsPeriodic.h>
#include <GooseFEM/VectorPartitionedTyings.h>
namespace {
struct Sum {
    std::vector<std::pair<std::string, uint64_t>> v;
    template <class T>
    void operator()(const char* name, const T& a)
    {
        uint64_t h = 7;
        for (auto i : a) h = mon::mix(h, mon::hashd((double)i));
        v.push_back({name, h});
    }
    void operator()(const char* name, double a)
    {
        v.push_back({name, mon::hashd(a)});
    }
};
inline std::vector<std::pair<std::string, uint64_t>> use_everything(uint64_t seed)
{
    namespace GF = GooseFEM;
    typedef xt::xtensor<double, 1> D1;
    typedef xt::xtensor<double, 2> D2;
    typedef xt::xtensor<double, 3> D3;
    typedef xt::xtensor<double, 4> D4;
    mon::Rng r(seed);
    Sum S;
    auto rnd = [&](auto a) {
        for (auto& i : a) i = r.uni(-1, 1);
        return a;
    };
    size_t nx = r.range(1, 6), ny = r.range(1, 5);
    double h = r.uni(0.5, 2);
    GF::Mesh::Quad4::Regular mesh(nx, ny, h);
    GF::Mesh::Quad4::FineLayer fine(3 * nx, 2 * ny + 1, h);
    GF::Mesh::Tri3::Regular tri(nx, ny, h);
    GF::Mesh::Hex8::Regular hex(nx, ny, 2, h);
    GF::Mesh::Hex8::FineLayer hexfine(3, 2 * ny + 1, 3, h);
    S("fine.coor", fine.coor()), S("fine.conn", fine.conn()), S("tri.coor", tri.coor()), S("tri.dofsPeriodic", tri.dofsPeriodic());
    S("hex.nodesPeriodic", hex.nodesPeriodic()), S("hexfine.conn", hexfine.conn()), S("hexfine.nodesFront", hexfine.nodesFront());
    S("tri.orientation", GF::Mesh::Tri3::getOrientation(tri.coor(), tri.conn()));
    S("fine.roll", fine.roll(1));
    auto coor = mesh.coor();
    auto conn = mesh.conn();
    auto dofs = mesh.dofs();
    S("coordination", GF::Mesh::coordination(conn)), S("edgesize", GF::Mesh::edgesize(coor, conn)), S("centers", GF::Mesh::centers(coor, conn));
    S("renumber", GF::Mesh::renumber(dofs)), S("dofs", GF::Mesh::dofs(7, 3));
    GF::Mesh::Stitch st;
    st.push_back(coor, conn);
    st.push_back(coor, conn);
    S("stitch", st.conn());
    GF::Mesh::Quad4::Map::RefineRegular ref(mesh, 2, 3);
    S("refine", ref.map());
    GF::Vector vec(conn, dofs);
    D2 u = rnd(vec.allocate_nodevec());
    auto ue = vec.AsElement(u);
    S("asElement", ue), S("assembleDofs", vec.AssembleDofs(ue)), S("assembleNode", vec.AssembleNode(ue)), S("asDofs", vec.AsDofs(u));
    xt::xtensor<size_t, 1> left = mesh.nodesLeftEdge(), bottom = mesh.nodesBottomEdge();
    xt::xtensor<size_t, 1> iip = xt::empty<size_t>({left.size()}), iipr = xt::empty<size_t>({left.size() + bottom.size()});
    for (size_t i = 0; i < left.size(); ++i) iip(i) = iipr(i) = dofs(left(i), 0);
    for (size_t i = 0; i < bottom.size(); ++i) iipr(left.size() + i) = dofs(bottom(i), 1);
    GF::VectorPartitioned vp(conn, dofs, iipr);
    S("asDofs_u", vp.AsDofs_u(u)), S("asDofs_p.elem", vp.AsDofs_p(ue)), S("copy_p", vp.Copy_p(u, D2(-u)));
    GF::Element::Quad4::Quadrature q(vec.AsElement(coor));
    GF::Element::Quad4::QuadraturePlanar qp(vec.AsElement(coor), 1.5);
    D2 xr = coor;
    for (size_t i = 0; i < xr.shape(0); ++i) xr(i, 1) += 1.0;
    GF::Element::Quad4::QuadratureAxisymmetric qa(vec.AsElement(xr));
    S("grad", q.GradN_vector(ue)), S("sym", q.SymGradN_vector(ue)), S("interp", q.InterpQuad_vector(ue)), S("symp", qp.SymGradN_vector(ue)), S("syma", qa.SymGradN_vector(ue));
    D4 sig = rnd(q.allocate_qtensor<2>(0.0)), sig3 = rnd(qp.allocate_qtensor<2>(0.0));
    S("force", q.Int_gradN_dot_tensor2_dV(sig)), S("forcep", qp.Int_gradN_dot_tensor2_dV(sig3)), S("forcea", qa.Int_gradN_dot_tensor2_dV(sig3));
    D2 rho = rnd(q.allocate_qscalar(0.0));
    S("mass", q.Int_N_scalar_NT_dV(rho));
    GF::Vector vh(hex.conn(), hex.dofs());
    GF::Element::Hex8::Quadrature qh(vh.AsElement(hex.coor()));
    S("dVh", qh.dV()), S("symh", qh.SymGradN_vector(rnd(vh.allocate_elemvec(0.0))));
    auto C = q.allocate_qtensor<4>(0.0);
    for (auto& v : C) v = r.uni(-1, 1);
    D3 K = q.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
    S("stiffness", K);
    for (size_t e = 0; e < K.shape(0); ++e)
        for (size_t i = 0; i < 8; ++i) K(e, i, i) += 40;
    GF::Matrix A(conn, dofs);
    A.assemble(K);
    GF::MatrixSolver<Eigen::SparseLU<Eigen::SparseMatrix<double>>> solver;
    S("dot", A.Dot(u)), S("todense", A.Todense());
    (void)solver.Solve(A, u);
    GF::MatrixPartitioned Ap(conn, dofs, iip);
    Ap.assemble(K);
    S("reaction", Ap.Reaction(u, u)), S("dotp", Ap.Dot(u));
    D3 M = vec.allocate_elemmat(0.0);
    for (size_t e = 0; e < M.shape(0); ++e)
        for (size_t i = 0; i < 8; ++i) M(e, i, i) = 1 + i;
    S("isDiagonal", (double)GF::Element::isDiagonal(M)), S("isSequential", (double)GF::Element::isSequential(dofs));
    GF::MatrixDiagonal D(conn, dofs);
    D.assemble(M);
    S("diag.solve", D.Solve(u)), S("diag.data", D.Todiagonal());
    GF::MatrixDiagonalPartitioned Dp(conn, dofs, iip);
    Dp.assemble(M);
    S("diagp.dot", Dp.Dot(u));
    GF::Tyings::Control ctl(coor, dofs);
    GF::Tyings::Periodic per(ctl.coor(), ctl.dofs(), ctl.controlDofs(), mesh.nodesPeriodic());
    GF::VectorPartitionedTyings vt(conn, per.dofs(), per.Cdu(), per.Cdp(), per.Cdi());
    S("tyings.dofs", per.dofs());
    D2 ut = rnd(vt.allocate_nodevec(0.0));
    S("tyings.asDofs_i", vt.AsDofs_i(ut));
    GF::MatrixPartitionedTyings At(conn, per.dofs(), per.Cdu(), per.Cdp());
    At.assemble(K);
    S("tyings.todense", At.Todense());
    GF::Iterate::StopList stop(3);
    stop.roll_insert(r.uni());
    S("stop", stop.data());
    S("asTensor", GF::AsTensor<2>(rho, 3)), S("as3d", GF::as3d(D2(u)));
    S("version", (double)GF::version_dependencies().size()), S("version.name", (double)GF::version().size());
    S("nodal_mass", GF::Mesh::nodal_mass(coor, conn)), S("center", GF::Mesh::center_of_gravity(coor, conn));
    S("nodaltyings", (double)GF::Mesh::nodaltyings(mesh.dofsPeriodic()).size());
    S("overlapping", GF::Mesh::overlapping(coor, coor));
    S("elementType", (double)(int)GF::Mesh::defaultElementType(coor, conn));
    return S.v;
}
} // namespace
