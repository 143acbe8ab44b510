// Second half of the miniature SOFA: scene graph, states, force fields, mappings, visitors, operations.
#pragma once

namespace sofa { namespace simulation { class Node; class Visitor; } }
namespace sofa { namespace core { namespace behavior { class BaseMechanicalState; } namespace topology { class BaseMeshTopology; class Topology; } } }

// ------------------------------------------------------------------------------------------ context
namespace sofa { namespace core { namespace objectmodel {
class Tag { std::string n; public: Tag() = default; explicit Tag(const std::string & s) : n(s) {} bool operator<(const Tag & o) const { return n < o.n; } };
class TagSet : public std::set<Tag> {};

class BaseContext : public virtual Base {
public:
    SOFA_CLASS(BaseContext, Base);
    enum SearchDirection { SearchUp = -1, Local = 0, SearchDown = 1, SearchRoot = 2, SearchParents = 3 };
    virtual ~BaseContext() = default;
    // every object visible in the given direction, in order
    virtual std::vector<BaseObject *> stub_objects(SearchDirection dir) const = 0;
    virtual BaseObject * stub_find(const std::string & path) const = 0;
    template <class T> T * get(SearchDirection dir = SearchUp) const {
        for (auto * o : stub_objects(dir)) if (auto * t = dynamic_cast<T *>(o)) return t;
        return nullptr;
    }
    template <class T> T * get(const TagSet &, SearchDirection dir = SearchUp) const { return get<T>(dir); }
    template <class T> T * get(const std::string & path) const { return dynamic_cast<T *>(stub_find(path)); }
    template <class T> void get(T *& p, SearchDirection dir = SearchUp) const { p = get<T>(dir); }
    template <class T> std::vector<T *> getObjects(SearchDirection dir = SearchUp) const {
        std::vector<T *> r;
        for (auto * o : stub_objects(dir)) if (auto * t = dynamic_cast<T *>(o)) r.push_back(t);
        return r;
    }
    template <class T, class C> void get(C * c, SearchDirection dir = SearchUp) const { for (auto * t : getObjects<T>(dir)) c->push_back(t); }
    virtual BaseContext * getRootContext() const = 0;
    virtual BaseObject * getMechanicalState() const = 0;
    virtual topology::BaseMeshTopology * getMeshTopology(SearchDirection dir = SearchUp) const;
    const BaseContext * getContext() const { return this; }
    BaseContext * getContext() { return this; }
    const TagSet & getTags() const { static TagSet t; return t; }
    SReal getDt() const { return p_dt; }
    SReal getTime() const { return p_time; }
    void setDt(SReal d) { p_dt = d; }
    void setTime(SReal t) { p_time = t; }
    bool isActive() const { return true; }
    virtual void executeVisitor(simulation::Visitor * v, bool = false);
protected:
    SReal p_dt = 0.01, p_time = 0;
};
}}} // namespace sofa::core::objectmodel

// ----------------------------------------------------------------------------------- visual params
namespace sofa { namespace core { namespace visual {
class DrawTool {
public:
    using RGBAColor = type::RGBAColor;
    std::vector<std::vector<type::Vector3>> triangles, lines, points;      // recorded draw calls
    template <class... A> void drawTriangles(const std::vector<type::Vector3> & t, A &&...) { triangles.push_back(t); }
    template <class... A> void drawLines(const std::vector<type::Vector3> & t, A &&...) { lines.push_back(t); }
    template <class... A> void drawPoints(const std::vector<type::Vector3> & t, A &&...) { points.push_back(t); }
    template <class... A> void drawArrow(A &&...) {}
    template <class... A> void drawSpheres(A &&...) {}
    template <class... A> void drawQuads(A &&...) {}
    template <class... A> void drawTetrahedron(A &&...) {}
    template <class... A> void drawHexahedron(A &&...) {}
    template <class... A> void drawTriangle(A &&...) {}
    template <class... A> void drawHexahedra(A &&...) {}
    template <class... A> void drawTetrahedra(A &&...) {}
    template <class... A> void drawText3D(A &&...) {}
    template <class... A> void draw3DText(A &&...) {}
    template <class... A> void drawEllipsoid(A &&...) {}
    void setPolygonMode(int, bool) {}
    void saveLastState() {}
    void restoreLastState() {}
    void disableLighting() {}
    void enableLighting() {}
    void setLightingEnabled(bool) {}
};
class DisplayFlags {
public:
    bool on = true;
    bool getShowForceFields() const { return on; }
    bool getShowWireFrame() const { return false; }
    bool getShowMappings() const { return on; }
    bool getShowMechanicalMappings() const { return on; }
    bool getShowBehaviorModels() const { return on; }
    bool getShowBehavior() const { return on; }
    bool getShowVisualModels() const { return on; }
};
class VisualParams : public ExecParams {
    DisplayFlags f;
    mutable DrawTool t;
public:
    const DisplayFlags & displayFlags() const { return f; }
    DrawTool * drawTool() const { return &t; }
    DrawTool *& stub();
};
}}}

namespace sofa { namespace core {
// ------------------------------------------------------------------------------- execution params
class MechanicalParams : public ExecParams {
    SReal m = 0, b = 0, k = 0, p_dt = 0;
    bool p_implicit = false;
    ConstMultiVecCoordId p_x = ConstVecCoordId::position();
    ConstMultiVecDerivId p_v = ConstVecDerivId::velocity(), p_f = ConstVecDerivId::force(), p_dx = ConstVecDerivId::dx(), p_df = ConstVecDerivId::dforce();
public:
    MechanicalParams() = default;
    MechanicalParams(const ExecParams & e) { if (auto * mp = dynamic_cast<const MechanicalParams *>(&e)) *this = *mp; }
    MechanicalParams(const MechanicalParams &) = default;
    MechanicalParams & operator=(const MechanicalParams &) = default;
    static const MechanicalParams * defaultInstance() { static MechanicalParams p; return &p; }
    SReal mFactor() const { return m; } SReal bFactor() const { return b; } SReal kFactor() const { return k; }
    SReal kFactorIncludingRayleighDamping(SReal r) const { return k + b * r; }
    SReal mFactorIncludingRayleighDamping(SReal r) const { return m - b * r; }
    SReal dt() const { return p_dt; }
    bool implicit() const { return p_implicit; }
    bool energy() const { return false; }
    MechanicalParams & setDt(SReal v) { p_dt = v; return *this; }
    MechanicalParams & setMFactor(SReal v) { m = v; return *this; }
    MechanicalParams & setBFactor(SReal v) { b = v; return *this; }
    MechanicalParams & setKFactor(SReal v) { k = v; return *this; }
    MechanicalParams & setImplicit(bool v) { p_implicit = v; return *this; }
    const ConstMultiVecCoordId & x() const { return p_x; }
    const ConstMultiVecDerivId & v() const { return p_v; }
    const ConstMultiVecDerivId & f() const { return p_f; }
    const ConstMultiVecDerivId & dx() const { return p_dx; }
    const ConstMultiVecDerivId & df() const { return p_df; }
    ConstMultiVecCoordId & x() { return p_x; }
    ConstMultiVecDerivId & v() { return p_v; }
    ConstMultiVecDerivId & f() { return p_f; }
    ConstMultiVecDerivId & dx() { return p_dx; }
    ConstMultiVecDerivId & df() { return p_df; }
    MechanicalParams & setX(ConstMultiVecCoordId i) { p_x = i; return *this; }
    MechanicalParams & setV(ConstMultiVecDerivId i) { p_v = i; return *this; }
    MechanicalParams & setF(ConstMultiVecDerivId i) { p_f = i; return *this; }
    MechanicalParams & setDx(ConstMultiVecDerivId i) { p_dx = i; return *this; }
    MechanicalParams & setDf(ConstMultiVecDerivId i) { p_df = i; return *this; }
    template <class S> auto readX(const S * s) const { return s->read(ConstVecCoordId(p_x.getId(s))); }
    template <class S> auto readV(const S * s) const { return s->read(ConstVecDerivId(p_v.getId(s))); }
    template <class S> auto readF(const S * s) const { return s->read(ConstVecDerivId(p_f.getId(s))); }
    template <class S> auto readDx(const S * s) const { return s->read(ConstVecDerivId(p_dx.getId(s))); }
    template <class S> auto readDf(const S * s) const { return s->read(ConstVecDerivId(p_df.getId(s))); }
};
class ConstraintParams : public ExecParams {
public:
    enum ConstOrder { POS = 0, VEL, ACC, POS_AND_VEL };
    ConstraintParams() = default;
    ConstraintParams(const MechanicalParams &) {}
    ConstraintParams & setOrder(ConstOrder o) { p_order = o; return *this; }
    ConstOrder constOrder() const { return p_order; }
private:
    ConstOrder p_order = POS_AND_VEL;
};
typedef ConstraintParams::ConstOrder ConstraintOrder;

// ------------------------------------------------------------------------------------------ states
class BaseState : public virtual objectmodel::BaseObject {
public:
    SOFA_CLASS(BaseState, objectmodel::BaseObject);
    virtual Size getSize() const = 0;
    virtual void resize(Size n) = 0;
};
template <class TDataTypes> class State : public virtual BaseState {
public:
    typedef TDataTypes DataTypes;
    SOFA_CLASS(State, BaseState);
    typedef typename DataTypes::Real Real;
    typedef typename DataTypes::Coord Coord; typedef typename DataTypes::Deriv Deriv;
    typedef typename DataTypes::VecCoord VecCoord; typedef typename DataTypes::VecDeriv VecDeriv; typedef typename DataTypes::MatrixDeriv MatrixDeriv;
    typedef helper::ReadAccessor<objectmodel::Data<VecCoord>> ReadVecCoord;
    typedef helper::ReadAccessor<objectmodel::Data<VecDeriv>> ReadVecDeriv;
    typedef helper::WriteAccessor<objectmodel::Data<VecCoord>> WriteVecCoord;
    typedef helper::WriteAccessor<objectmodel::Data<VecDeriv>> WriteVecDeriv;
    typedef helper::WriteOnlyAccessor<objectmodel::Data<VecCoord>> WriteOnlyVecCoord;
    typedef helper::WriteOnlyAccessor<objectmodel::Data<VecDeriv>> WriteOnlyVecDeriv;
    virtual objectmodel::Data<VecCoord> * write(VecCoordId) = 0;
    virtual objectmodel::Data<VecDeriv> * write(VecDerivId) = 0;
    virtual objectmodel::Data<MatrixDeriv> * write(MatrixDerivId) = 0;
    virtual const objectmodel::Data<VecCoord> * read(ConstVecCoordId) const = 0;
    virtual const objectmodel::Data<VecDeriv> * read(ConstVecDerivId) const = 0;
    virtual const objectmodel::Data<MatrixDeriv> * read(ConstMatrixDerivId) const = 0;
    ReadVecCoord readPositions() const { return ReadVecCoord(*read(ConstVecCoordId::position())); }
    ReadVecCoord readRestPositions() const { return ReadVecCoord(*read(ConstVecCoordId::restPosition())); }
    ReadVecDeriv readVelocities() const { return ReadVecDeriv(*read(ConstVecDerivId::velocity())); }
    ReadVecDeriv readForces() const { return ReadVecDeriv(*read(ConstVecDerivId::force())); }
    WriteVecCoord writePositions() { return WriteVecCoord(*write(VecCoordId::position())); }
    WriteVecCoord writeRestPositions() { return WriteVecCoord(*write(VecCoordId::restPosition())); }
    WriteVecDeriv writeVelocities() { return WriteVecDeriv(*write(VecDerivId::velocity())); }
    WriteVecDeriv writeForces() { return WriteVecDeriv(*write(VecDerivId::force())); }
    WriteOnlyVecCoord writeOnlyPositions() { return WriteOnlyVecCoord(*write(VecCoordId::position())); }
    WriteOnlyVecCoord writeOnlyRestPositions() { return WriteOnlyVecCoord(*write(VecCoordId::restPosition())); }
    WriteOnlyVecDeriv writeOnlyForces() { return WriteOnlyVecDeriv(*write(VecDerivId::force())); }
    WriteOnlyVecDeriv writeOnlyVelocities() { return WriteOnlyVecDeriv(*write(VecDerivId::velocity())); }
    std::string getTemplateName() const override { return DataTypes::Name(); }
    static std::string templateName(const State * = nullptr) { return DataTypes::Name(); }
};

namespace behavior {
class BaseMechanicalState : public virtual BaseState {
public:
    SOFA_CLASS(BaseMechanicalState, BaseState);
    virtual Size getMatrixSize() const = 0;
    Size getMatrixBlockSize() const { return getSize() ? getMatrixSize() / getSize() : 0; }
    virtual void stub_alloc(VecType t, unsigned int index) = 0;                    // allocate with getSize() zeros
    virtual void stub_op(VecId v, ConstVecId a, ConstVecId b, SReal f) = 0;        // v = a + f*b ; a or b may be null
    virtual SReal stub_dot(ConstVecId a, ConstVecId b) const = 0;
    virtual void stub_to(ConstVecId v, defaulttype::BaseVector * d, unsigned int & offset) const = 0;
    virtual void stub_from(VecId v, const defaulttype::BaseVector * s, unsigned int & offset) = 0;
};
template <class DataTypes> class MechanicalState : public BaseMechanicalState, public State<DataTypes> {
public:
    SOFA_CLASS2(MechanicalState, BaseMechanicalState, State<DataTypes>);
    std::string getTemplateName() const override { return DataTypes::Name(); }
    static std::string templateName(const MechanicalState * = nullptr) { return DataTypes::Name(); }
};
} // namespace behavior
}} // namespace sofa::core

namespace sofa { namespace component { namespace container {
template <class DataTypes> class MechanicalObject : public core::behavior::MechanicalState<DataTypes> {
public:
    SOFA_CLASS(MechanicalObject, core::behavior::MechanicalState<DataTypes>);
    typedef typename DataTypes::VecCoord VecCoord; typedef typename DataTypes::VecDeriv VecDeriv; typedef typename DataTypes::MatrixDeriv MatrixDeriv;
    typedef core::objectmodel::Data<VecCoord> DC; typedef core::objectmodel::Data<VecDeriv> DD; typedef core::objectmodel::Data<MatrixDeriv> DM;
    DC x, x0; DD v, f;
    MechanicalObject()
    : x(core::objectmodel::Base::initData(&x, "position", "")), x0(core::objectmodel::Base::initData(&x0, "rest_position", "")),
      v(core::objectmodel::Base::initData(&v, "velocity", "")), f(core::objectmodel::Base::initData(&f, "force", "")) {}
    Size getSize() const override { return static_cast<Size>(x.getValue().size()); }
    Size getMatrixSize() const override { return getSize() * DataTypes::deriv_total_size; }
    void resize(Size n) override { x.beginEdit()->resize(n); v.beginEdit()->resize(n); f.beginEdit()->resize(n); }
    void init() override {
        // rest positions default to the positions, and every vector gets the size of the position vector
        if (x0.getValue().empty() && !x.getValue().empty()) x0.setValue(x.getValue());
        if (x.getValue().empty() && !x0.getValue().empty()) x.setValue(x0.getValue());
        if (v.getValue().size() != getSize()) v.beginEdit()->resize(getSize());
        if (f.getValue().size() != getSize()) f.beginEdit()->resize(getSize());
    }
    DC * write(core::VecCoordId i) override { return i.index == 1 ? &x : i.index == 2 ? &x0 : coord(i.index); }
    DD * write(core::VecDerivId i) override { return i.index == 1 ? &v : i.index == 5 ? &f : deriv(i.index); }
    DM * write(core::MatrixDerivId i) override { return matrix(i.index); }
    const DC * read(core::ConstVecCoordId i) const override { return const_cast<MechanicalObject *>(this)->write(core::VecCoordId(i.index)); }
    const DD * read(core::ConstVecDerivId i) const override { return const_cast<MechanicalObject *>(this)->write(core::VecDerivId(i.index)); }
    const DM * read(core::ConstMatrixDerivId i) const override { return const_cast<MechanicalObject *>(this)->write(core::MatrixDerivId(i.index)); }
    void stub_alloc(core::VecType t, unsigned int i) override {
        if (t == core::V_COORD) write(core::VecCoordId(i))->setValue(VecCoord(getSize()));
        else write(core::VecDerivId(i))->setValue(VecDeriv(getSize()));
    }
    // Coord and Deriv are the same type for the Vec types of this miniature
    const VecCoord * vec(core::ConstVecId i) const { return i.isNull() ? nullptr : i.type == core::V_COORD ? &read(core::ConstVecCoordId(i.index))->getValue() : &read(core::ConstVecDerivId(i.index))->getValue(); }
    VecCoord * wvec(core::VecId i) { return i.type == core::V_COORD ? write(core::VecCoordId(i.index))->beginEdit() : write(core::VecDerivId(i.index))->beginEdit(); }
    void stub_op(core::VecId o, core::ConstVecId a, core::ConstVecId b, SReal k) override {
        const auto n = getSize();
        VecCoord r(n);
        if (auto * p = vec(a)) { for (Size i = 0; i < n && i < p->size(); ++i) r[i] += (*p)[i]; }
        if (auto * p = vec(b)) { for (Size i = 0; i < n && i < p->size(); ++i) r[i] += (*p)[i] * k; }
        *wvec(o) = r;
    }
    SReal stub_dot(core::ConstVecId a, core::ConstVecId b) const override {
        auto * p = vec(a); auto * q = vec(b); SReal s = 0;
        for (Size i = 0; i < getSize() && i < p->size() && i < q->size(); ++i) s += (*p)[i] * (*q)[i];
        return s;
    }
    void stub_to(core::ConstVecId id, defaulttype::BaseVector * d, unsigned int & off) const override {
        auto * p = vec(id);
        for (Size i = 0; i < p->size(); ++i) for (Size c = 0; c < DataTypes::deriv_total_size; ++c) d->set(static_cast<int>(off + i * DataTypes::deriv_total_size + c), (*p)[i][c]);
        off += getMatrixSize();
    }
    void stub_from(core::VecId id, const defaulttype::BaseVector * s, unsigned int & off) override {
        auto * p = wvec(id); p->resize(getSize());
        for (Size i = 0; i < p->size(); ++i) for (Size c = 0; c < DataTypes::deriv_total_size; ++c) (*p)[i][c] = s->element(static_cast<int>(off + i * DataTypes::deriv_total_size + c));
        off += getMatrixSize();
    }
private:
    std::map<unsigned, std::unique_ptr<DC>> p_c; std::map<unsigned, std::unique_ptr<DD>> p_d; std::map<unsigned, std::unique_ptr<DM>> p_m;
    DC * coord(unsigned i) { auto & p = p_c[i]; if (!p) p.reset(new DC()); return p.get(); }
    DD * deriv(unsigned i) { auto & p = p_d[i]; if (!p) p.reset(new DD()); return p.get(); }
    DM * matrix(unsigned i) { auto & p = p_m[i]; if (!p) p.reset(new DM()); return p.get(); }
};
}}} // namespace sofa::component::container

// ---------------------------------------------------------------------------------------- topology
namespace sofa { namespace core { namespace topology {
class Topology : public virtual objectmodel::BaseObject {
public:
    SOFA_CLASS(Topology, objectmodel::BaseObject);
    typedef sofa::Index Index; typedef sofa::Index index_type; typedef sofa::Index PointID; typedef sofa::Index EdgeID; typedef sofa::Index TriangleID; typedef sofa::Index QuadID; typedef sofa::Index TetrahedronID; typedef sofa::Index TetraID; typedef sofa::Index HexahedronID; typedef sofa::Index HexaID; typedef sofa::Index ElemID;
    typedef type::fixed_array<PointID, 2> Edge; typedef type::fixed_array<PointID, 3> Triangle; typedef type::fixed_array<PointID, 4> Quad; typedef type::fixed_array<PointID, 4> Tetrahedron; typedef type::fixed_array<PointID, 4> Tetra; typedef type::fixed_array<PointID, 8> Hexahedron; typedef type::fixed_array<PointID, 8> Hexa;
    static constexpr Index InvalidID = sofa::InvalidID;
};
class BaseTopology : public Topology { public: SOFA_CLASS(BaseTopology, Topology); };
class BaseMeshTopology : public Topology {
public:
    SOFA_CLASS(BaseMeshTopology, Topology);
    typedef type::vector<Edge> SeqEdges; typedef type::vector<Triangle> SeqTriangles; typedef type::vector<Quad> SeqQuads; typedef type::vector<Tetrahedron> SeqTetrahedra; typedef type::vector<Hexahedron> SeqHexahedra;
    objectmodel::Data<SeqEdges> d_edges; objectmodel::Data<SeqTriangles> d_triangles; objectmodel::Data<SeqQuads> d_quads; objectmodel::Data<SeqTetrahedra> d_tetrahedra; objectmodel::Data<SeqHexahedra> d_hexahedra;
    objectmodel::Data<type::vector<type::Vector3>> d_points;
    BaseMeshTopology()
    : d_edges(Base::initData(&d_edges, "edges", "")), d_triangles(Base::initData(&d_triangles, "triangles", "")), d_quads(Base::initData(&d_quads, "quads", "")),
      d_tetrahedra(Base::initData(&d_tetrahedra, "tetrahedra", "")), d_hexahedra(Base::initData(&d_hexahedra, "hexahedra", "")), d_points(Base::initData(&d_points, "position", "")) {}
    Size getNbEdges() const { return Size(d_edges.getValue().size()); }
    Size getNbTriangles() const { return Size(d_triangles.getValue().size()); }
    Size getNbQuads() const { return Size(d_quads.getValue().size()); }
    Size getNbTetrahedra() const { return Size(d_tetrahedra.getValue().size()); }
    Size getNbTetras() const { return getNbTetrahedra(); }
    Size getNbHexahedra() const { return Size(d_hexahedra.getValue().size()); }
    Size getNbHexas() const { return getNbHexahedra(); }
    Size getNbPoints() const { return Size(d_points.getValue().size()); }
    const Edge getEdge(Index i) const { return d_edges.getValue().at(i); }
    const Triangle getTriangle(Index i) const { return d_triangles.getValue().at(i); }
    const Quad getQuad(Index i) const { return d_quads.getValue().at(i); }
    const Tetra getTetrahedron(Index i) const { return d_tetrahedra.getValue().at(i); }
    const Tetra getTetra(Index i) const { return d_tetrahedra.getValue().at(i); }
    const Hexa getHexahedron(Index i) const { return d_hexahedra.getValue().at(i); }
    const Hexa getHexa(Index i) const { return d_hexahedra.getValue().at(i); }
    const SeqEdges & getEdges() const { return d_edges.getValue(); }
    const SeqTriangles & getTriangles() const { return d_triangles.getValue(); }
    const SeqQuads & getQuads() const { return d_quads.getValue(); }
    const SeqTetrahedra & getTetrahedra() const { return d_tetrahedra.getValue(); }
    const SeqHexahedra & getHexahedra() const { return d_hexahedra.getValue(); }
};
}}}
namespace sofa { namespace component { namespace topology {
#define SOFA_STUB_CONTAINER(N, P) class N : public P { public: SOFA_CLASS(N, P); }
SOFA_STUB_CONTAINER(PointSetTopologyContainer, core::topology::BaseMeshTopology);
SOFA_STUB_CONTAINER(EdgeSetTopologyContainer, PointSetTopologyContainer);
SOFA_STUB_CONTAINER(TriangleSetTopologyContainer, EdgeSetTopologyContainer);
SOFA_STUB_CONTAINER(QuadSetTopologyContainer, EdgeSetTopologyContainer);
SOFA_STUB_CONTAINER(TetrahedronSetTopologyContainer, TriangleSetTopologyContainer);
SOFA_STUB_CONTAINER(HexahedronSetTopologyContainer, QuadSetTopologyContainer);
class MeshTopology : public core::topology::BaseMeshTopology {
public:
    SOFA_CLASS(MeshTopology, core::topology::BaseMeshTopology);
    decltype(core::topology::BaseMeshTopology::d_points) & seqPoints = this->d_points;
};
SOFA_STUB_CONTAINER(RegularGridTopology, MeshTopology);
SOFA_STUB_CONTAINER(SparseGridTopology, MeshTopology);
}}}
namespace sofa { namespace core { namespace objectmodel {
inline std::string BaseObject::getPathName() const { const auto * b = dynamic_cast<const Base *>(p_context); const std::string p = b ? b->getPathName() : ""; return (p == "/" ? "" : p) + "/" + getName(); }
inline topology::BaseMeshTopology * BaseContext::getMeshTopology(SearchDirection dir) const { return get<topology::BaseMeshTopology>(dir); }
}}}

// -------------------------------------------------------------------------- force fields, solvers
namespace sofa { namespace core {
class BaseMapping;
namespace behavior {
class MultiMatrixAccessor {
public:
    struct MatrixRef {
        defaulttype::BaseMatrix * matrix = nullptr; unsigned int offset = 0;
        explicit operator bool() const { return matrix != nullptr; }
        bool operator!() const { return matrix == nullptr; }
        defaulttype::BaseMatrix * operator->() const { return matrix; }
        defaulttype::BaseMatrix & operator*() const { return *matrix; }
    };
    virtual ~MultiMatrixAccessor() = default;
    virtual MatrixRef getMatrix(const BaseMechanicalState *) const = 0;
    virtual void addMechanicalState(const BaseMechanicalState *) = 0;
    virtual unsigned int getGlobalDimension() const = 0;
    virtual int getGlobalOffset(const BaseMechanicalState *) const = 0;
};

class BaseForceField : public virtual objectmodel::BaseObject {
public:
    SOFA_CLASS(BaseForceField, objectmodel::BaseObject);
    objectmodel::Data<SReal> rayleighStiffness;
    BaseForceField() : rayleighStiffness(Base::initData(&rayleighStiffness, SReal(0), "rayleighStiffness", "")) {}
    virtual void addForce(const MechanicalParams *, MultiVecDerivId) = 0;
    virtual void addDForce(const MechanicalParams *, MultiVecDerivId) = 0;
    virtual void addMBKdx(const MechanicalParams * mp, MultiVecDerivId df) { if (mp->kFactor() != 0.0 || mp->bFactor() != 0.0) addDForce(mp, df); }
    virtual SReal getPotentialEnergy(const MechanicalParams * = MechanicalParams::defaultInstance()) const { return 0; }
    virtual void addKToMatrix(const MechanicalParams *, const MultiMatrixAccessor *) = 0;
    virtual void addBToMatrix(const MechanicalParams *, const MultiMatrixAccessor *) {}
    virtual void addMBKToMatrix(const MechanicalParams * mp, const MultiMatrixAccessor * m) {
        if (mp->kFactor() != 0.0 || mp->bFactor() != 0.0) addKToMatrix(mp, m);
        if (mp->bFactor() != 0.0) addBToMatrix(mp, m);
    }
    virtual bool isCompliance() const { return false; }
    virtual bool stub_is_mass() const { return false; }
};

template <class TDataTypes> class ForceField : public BaseForceField {
public:
    typedef TDataTypes DataTypes;
    SOFA_CLASS(ForceField, BaseForceField);
    typedef typename DataTypes::Real Real;
    typedef typename DataTypes::VecCoord VecCoord; typedef typename DataTypes::VecDeriv VecDeriv; typedef typename DataTypes::Coord Coord; typedef typename DataTypes::Deriv Deriv;
    typedef objectmodel::Data<VecCoord> DataVecCoord; typedef objectmodel::Data<VecDeriv> DataVecDeriv;
    objectmodel::SingleLink<ForceField<DataTypes>, MechanicalState<DataTypes>, objectmodel::BaseLink::FLAG_STRONGLINK> mstate;
    ForceField(MechanicalState<DataTypes> * mm = nullptr) : mstate(Base::initLink("mstate", "")) { if (mm) mstate.set(mm); }
    void init() override {
        BaseForceField::init();
        if (!mstate.get() && this->getContext()) mstate.set(dynamic_cast<MechanicalState<DataTypes> *>(this->getContext()->getMechanicalState()));
    }
    MechanicalState<DataTypes> * getMState() { return mstate.get(); }
    const MechanicalState<DataTypes> * getMState() const { return mstate.get(); }
    void addForce(const MechanicalParams * mp, MultiVecDerivId f) override {
        auto * s = mstate.get();
        if (s && mp) addForce(mp, *s->write(f.getId(s)), *mp->readX(s), *mp->readV(s));
    }
    virtual void addForce(const MechanicalParams *, DataVecDeriv & f, const DataVecCoord & x, const DataVecDeriv & v) = 0;
    void addDForce(const MechanicalParams * mp, MultiVecDerivId df) override {
        auto * s = mstate.get();
        if (s && mp) addDForce(mp, *s->write(df.getId(s)), *mp->readDx(s));
    }
    virtual void addDForce(const MechanicalParams *, DataVecDeriv & df, const DataVecDeriv & dx) = 0;
    SReal getPotentialEnergy(const MechanicalParams * mp = MechanicalParams::defaultInstance()) const override {
        auto * s = mstate.get();
        return (s && mp) ? getPotentialEnergy(mp, *mp->readX(static_cast<const MechanicalState<DataTypes> *>(s))) : 0;
    }
    virtual SReal getPotentialEnergy(const MechanicalParams *, const DataVecCoord &) const = 0;
    void addKToMatrix(const MechanicalParams * mp, const MultiMatrixAccessor * m) override {
        auto * s = mstate.get();
        if (!s) return;
        auto r = m->getMatrix(s);
        if (r) addKToMatrix(r.matrix, mp->kFactorIncludingRayleighDamping(rayleighStiffness.getValue()), r.offset);
    }
    virtual void addKToMatrix(defaulttype::BaseMatrix *, SReal, unsigned int &) {}
    template <class T> static bool canCreate(T * t, objectmodel::BaseContext * c, objectmodel::BaseObjectDescription * d) {
        if (dynamic_cast<MechanicalState<DataTypes> *>(c->getMechanicalState()) == nullptr) { d->logError("no mechanical state"); return false; }
        return objectmodel::BaseObject::canCreate(t, c, d);
    }
    std::string getTemplateName() const override { return DataTypes::Name(); }
    static std::string templateName(const ForceField * = nullptr) { return DataTypes::Name(); }
};

class BaseProjectiveConstraintSet : public virtual objectmodel::BaseObject {
public:
    SOFA_CLASS(BaseProjectiveConstraintSet, objectmodel::BaseObject);
    virtual void projectResponse(const MechanicalParams *, MultiVecDerivId) = 0;
    virtual void projectVelocity(const MechanicalParams *, MultiVecDerivId) {}
    virtual void projectPosition(const MechanicalParams *, MultiVecCoordId) {}
    virtual void applyConstraint(const MechanicalParams *, const MultiMatrixAccessor *) {}
    virtual void applyConstraint(const MechanicalParams *, defaulttype::BaseVector *, const MultiMatrixAccessor *) {}
};
class ConstraintSolver : public virtual objectmodel::BaseObject {
public:
    SOFA_CLASS(ConstraintSolver, objectmodel::BaseObject);
    virtual void solveConstraint(const ConstraintParams *, MultiVecId, MultiVecId = MultiVecId::null()) {}
};
class LinearSolver : public virtual objectmodel::BaseObject {
public:
    SOFA_CLASS(LinearSolver, objectmodel::BaseObject);
    virtual void resetSystem() = 0;
    virtual void setSystemMBKMatrix(const MechanicalParams *) = 0;
    virtual void setSystemRHVector(MultiVecDerivId) = 0;
    virtual void setSystemLHVector(MultiVecDerivId) = 0;
    virtual void solveSystem() = 0;
};
class OdeSolver : public virtual objectmodel::BaseObject {
public:
    SOFA_CLASS(OdeSolver, objectmodel::BaseObject);
    virtual void solve(const ExecParams *, SReal dt, MultiVecCoordId x, MultiVecDerivId v) = 0;
    virtual void solve(const ExecParams * p, SReal dt) { solve(p, dt, VecCoordId::position(), VecDerivId::velocity()); }
    SReal getTime() const { return getContext() ? getContext()->getTime() : 0; }
    virtual double getIntegrationFactor(int, int) const { return 0; }
    virtual double getSolutionIntegrationFactor(int) const { return 0; }
    virtual double getVelocityIntegrationFactor() const { return 0; }
    virtual double getPositionIntegrationFactor() const { return 0; }
};
} // namespace behavior

// ---------------------------------------------------------------------------------------- mapping
class BaseMapping : public virtual objectmodel::BaseObject {
public:
    SOFA_CLASS(BaseMapping, objectmodel::BaseObject);
    objectmodel::Data<bool> f_mapForces, f_mapConstraints, f_mapMasses, f_mapMatrices;
    BaseMapping() : f_mapForces(Base::initData(&f_mapForces, true, "mapForces", "")), f_mapConstraints(Base::initData(&f_mapConstraints, true, "mapConstraints", "")), f_mapMasses(Base::initData(&f_mapMasses, true, "mapMasses", "")), f_mapMatrices(Base::initData(&f_mapMatrices, false, "mapMatrices", "")) {}
    bool areForcesMapped() const { return f_mapForces.getValue(); }
    bool areConstraintsMapped() const { return f_mapConstraints.getValue(); }
    bool areMassesMapped() const { return f_mapMasses.getValue(); }
    bool areMatricesMapped() const { return f_mapMatrices.getValue(); }
    virtual bool isMechanical() const { return true; }
    virtual void apply(const MechanicalParams *, MultiVecCoordId, ConstMultiVecCoordId) = 0;
    virtual void applyJ(const MechanicalParams *, MultiVecDerivId, ConstMultiVecDerivId) = 0;
    virtual void applyJT(const MechanicalParams *, MultiVecDerivId, ConstMultiVecDerivId) = 0;
    virtual void applyDJT(const MechanicalParams *, MultiVecDerivId, ConstMultiVecDerivId) {}
    virtual behavior::BaseMechanicalState * stub_to_state() const = 0;
};
template <class TIn, class TOut> class Mapping : public BaseMapping {
public:
    typedef TIn In; typedef TOut Out;
    SOFA_CLASS(Mapping, BaseMapping);
    typedef objectmodel::Data<typename In::VecCoord> InDataVecCoord; typedef objectmodel::Data<typename In::VecDeriv> InDataVecDeriv; typedef objectmodel::Data<typename In::MatrixDeriv> InDataMatrixDeriv;
    typedef objectmodel::Data<typename Out::VecCoord> OutDataVecCoord; typedef objectmodel::Data<typename Out::VecDeriv> OutDataVecDeriv; typedef objectmodel::Data<typename Out::MatrixDeriv> OutDataMatrixDeriv;
    objectmodel::SingleLink<Mapping, State<In>, objectmodel::BaseLink::FLAG_STRONGLINK> fromModel;
    objectmodel::SingleLink<Mapping, State<Out>, objectmodel::BaseLink::FLAG_STRONGLINK> toModel;
    Mapping(State<In> * from = nullptr, State<Out> * to = nullptr) : fromModel(Base::initLink("input", "")), toModel(Base::initLink("output", "")) { if (from) fromModel.set(from); if (to) toModel.set(to); }
    State<In> * getFromModel() { return fromModel.get(); }
    const State<In> * getFromModel() const { return fromModel.get(); }
    State<Out> * getToModel() { return toModel.get(); }
    const State<Out> * getToModel() const { return toModel.get(); }
    void setFrom(State<In> * s) { fromModel.set(s); }
    void setTo(State<Out> * s) { toModel.set(s); }
    void setModels(State<In> * a, State<Out> * b) { setFrom(a); setTo(b); }
    behavior::BaseMechanicalState * stub_to_state() const override { return dynamic_cast<behavior::BaseMechanicalState *>(toModel.get()); }
    // propagates positions and velocities to the mapped state, as the base class of SOFA does
    void init() override {
        if (toModel.get() && fromModel.get()) {
            apply(MechanicalParams::defaultInstance(), VecCoordId::position(), ConstVecCoordId::position());
            applyJ(MechanicalParams::defaultInstance(), VecDerivId::velocity(), ConstVecDerivId::velocity());
        }
    }
    void apply(const MechanicalParams * mp, MultiVecCoordId o, ConstMultiVecCoordId i) override { auto * a = getFromModel(); auto * b = getToModel(); if (a && b) apply(mp, *b->write(o.getId(b)), *a->read(i.getId(a))); }
    void applyJ(const MechanicalParams * mp, MultiVecDerivId o, ConstMultiVecDerivId i) override { auto * a = getFromModel(); auto * b = getToModel(); if (a && b) applyJ(mp, *b->write(o.getId(b)), *a->read(i.getId(a))); }
    void applyJT(const MechanicalParams * mp, MultiVecDerivId o, ConstMultiVecDerivId i) override { auto * a = getFromModel(); auto * b = getToModel(); if (a && b) applyJT(mp, *a->write(o.getId(a)), *b->read(i.getId(b))); }
    virtual void apply(const MechanicalParams *, OutDataVecCoord &, const InDataVecCoord &) = 0;
    virtual void applyJ(const MechanicalParams *, OutDataVecDeriv &, const InDataVecDeriv &) = 0;
    virtual void applyJT(const MechanicalParams *, InDataVecDeriv &, const OutDataVecDeriv &) = 0;
    virtual void applyJT(const ConstraintParams *, InDataMatrixDeriv &, const OutDataMatrixDeriv &) {}
    template <class T> static bool canCreate(T * t, objectmodel::BaseContext * c, objectmodel::BaseObjectDescription * d) { return objectmodel::BaseObject::canCreate(t, c, d); }
};

// --------------------------------------------------------------------------------- object factory
class RegisterObject {
public:
    explicit RegisterObject(const std::string &) {}
    RegisterObject & addDescription(const std::string &) { return *this; }
    RegisterObject & addAlias(const std::string &) { return *this; }
    RegisterObject & addAuthor(const std::string &) { return *this; }
    RegisterObject & addLicense(const std::string &) { return *this; }
    template <class T> RegisterObject & add(bool = false) { return *this; }
    operator int() const { return 1; }
};
}} // namespace sofa::core

// ---------------------------------------------------------------------------------- scene graph
namespace sofa { namespace simulation {
class AnimateBeginEvent : public core::objectmodel::Event {
    SReal p_dt;
public:
    explicit AnimateBeginEvent(SReal dt = 0.01) : p_dt(dt) {}
    SReal getDt() const { return p_dt; }
    static bool checkEventType(core::objectmodel::Event * e) { return dynamic_cast<AnimateBeginEvent *>(e) != nullptr; }
    const char * getClassName() const override { return "AnimateBeginEvent"; }
};
class AnimateEndEvent : public core::objectmodel::Event {
public:
    static bool checkEventType(core::objectmodel::Event * e) { return dynamic_cast<AnimateEndEvent *>(e) != nullptr; }
};

class Node : public core::objectmodel::BaseContext {
    std::vector<core::objectmodel::BaseObject::SPtr> p_objects;
    std::vector<core::sptr<Node>> p_children;
    Node * p_parent = nullptr;
public:
    SOFA_CLASS(Node, core::objectmodel::BaseContext);
    explicit Node(const std::string & n = "") { setName(n); }
    ~Node() override {
        for (auto & o : p_objects) o->stub_set_context(nullptr);
    }
    void addObject(core::objectmodel::BaseObject::SPtr o) { o->stub_set_context(this); p_objects.push_back(o); }
    template <class T, class... A> core::sptr<T> stub_add(A &&... a) { core::objectmodel::New<T> o(std::forward<A>(a)...); addObject(core::objectmodel::BaseObject::SPtr(o.get())); return core::sptr<T>(o.get()); }
    core::sptr<Node> createChild(const std::string & n) { core::objectmodel::New<Node> c(n); c->p_parent = this; p_children.push_back(c); return core::sptr<Node>(c.get()); }
    std::size_t getNbParents() const { return p_parent ? 1 : 0; }
    core::objectmodel::BaseContext * getFirstParent() const { return p_parent; }
    const std::vector<core::sptr<Node>> & stub_children() const { return p_children; }
    const std::vector<core::objectmodel::BaseObject::SPtr> & stub_local() const { return p_objects; }
    std::string getPathName() const override { if (!p_parent) return "/"; const std::string p = p_parent->getPathName(); return (p == "/" ? "" : p) + "/" + getName(); }
    core::objectmodel::BaseContext * getRootContext() const override { auto * n = const_cast<Node *>(this); while (n->p_parent) n = n->p_parent; return n; }
    core::objectmodel::BaseObject * getMechanicalState() const override {
        for (auto * n = this; n; n = n->p_parent) for (auto & o : n->p_objects) if (dynamic_cast<core::behavior::BaseMechanicalState *>(o.get())) return o.get();
        return nullptr;
    }
    std::vector<core::objectmodel::BaseObject *> stub_objects(SearchDirection dir) const override {
        std::vector<core::objectmodel::BaseObject *> r;
        if (dir == SearchRoot) return static_cast<Node *>(getRootContext())->stub_objects(SearchDown);
        if (dir != SearchParents) for (auto & o : p_objects) r.push_back(o.get());
        if (dir == SearchUp || dir == SearchParents) for (auto * n = p_parent; n; n = n->p_parent) for (auto & o : n->p_objects) r.push_back(o.get());
        if (dir == SearchDown) for (auto & c : p_children) for (auto * o : c->stub_objects(SearchDown)) r.push_back(o);
        return r;
    }
    core::objectmodel::BaseObject * stub_find(const std::string & path) const override {
        std::string p = path; if (!p.empty() && p[0] == '@') p = p.substr(1);
        const Node * n = this;
        if (!p.empty() && p[0] == '/') { n = static_cast<const Node *>(getRootContext()); p = p.substr(1); }
        while (true) {
            auto s = p.find('/');
            if (s == std::string::npos) break;
            std::string part = p.substr(0, s); p = p.substr(s + 1);
            if (part == "." || part.empty()) continue;
            if (part == "..") { n = n->p_parent; if (!n) return nullptr; continue; }
            const Node * next = nullptr;
            for (auto & c : n->p_children) if (c->getName() == part) next = c.get();
            if (!next) return nullptr;
            n = next;
        }
        for (auto & o : n->p_objects) if (o->getName() == p) return o.get();
        return nullptr;
    }
    void stub_init() { for (auto & o : p_objects) o->init(); for (auto & c : p_children) c->stub_init(); for (auto & o : p_objects) o->bwdInit(); }
    void stub_event(core::objectmodel::Event * e) { for (auto & o : p_objects) if (o->f_listening.getValue()) o->handleEvent(e); for (auto & c : p_children) c->stub_event(e); }
    void stub_reset() { for (auto & o : p_objects) o->reset(); for (auto & c : p_children) c->stub_reset(); }
};

// --------------------------------------------------------------------------------------- visitors
class Visitor {
public:
    enum Result { RESULT_CONTINUE, RESULT_PRUNE };
    explicit Visitor(const core::ExecParams * p) : params(p) {}
    virtual ~Visitor() = default;
    virtual Result processNodeTopDown(Node *) { return RESULT_CONTINUE; }
    virtual void processNodeBottomUp(Node *) {}
    virtual const char * getClassName() const { return "Visitor"; }
    virtual std::string getInfos() const { return ""; }
    void stub_run(Node * n) {
        if (processNodeTopDown(n) == RESULT_CONTINUE) for (auto & c : n->stub_children()) stub_run(c.get());
        processNodeBottomUp(n);
    }
    void execute(core::objectmodel::BaseContext * c, bool = false) { if (auto * n = dynamic_cast<Node *>(c)) stub_run(n); }
    void execute(const core::objectmodel::BaseContext * c, bool = false) { execute(const_cast<core::objectmodel::BaseContext *>(c)); }
    Visitor & setTags(const core::objectmodel::TagSet &) { return *this; }
    const core::ExecParams * params;
};

class BaseMechanicalVisitor : public Visitor {
public:
    struct VisitorContext { Node * root = nullptr; Node * node = nullptr; SReal * nodeData = nullptr; };
    explicit BaseMechanicalVisitor(const core::ExecParams * p) : Visitor(p) {}
    virtual Result fwdMechanicalState(Node *, core::behavior::BaseMechanicalState *) { return RESULT_CONTINUE; }
    virtual Result fwdMechanicalState(VisitorContext * c, core::behavior::BaseMechanicalState * m) { return fwdMechanicalState(c->node, m); }
    virtual Result fwdMappedMechanicalState(Node *, core::behavior::BaseMechanicalState *) { return RESULT_CONTINUE; }
    virtual Result fwdMappedMechanicalState(VisitorContext * c, core::behavior::BaseMechanicalState * m) { return fwdMappedMechanicalState(c->node, m); }
    virtual Result fwdMechanicalMapping(Node *, core::BaseMapping *) { return RESULT_CONTINUE; }
    virtual Result fwdForceField(Node *, core::behavior::BaseForceField *) { return RESULT_CONTINUE; }
    virtual Result fwdProjectiveConstraintSet(Node *, core::behavior::BaseProjectiveConstraintSet *) { return RESULT_CONTINUE; }
    virtual void bwdMechanicalState(Node *, core::behavior::BaseMechanicalState *) {}
    virtual void bwdMappedMechanicalState(Node *, core::behavior::BaseMechanicalState *) {}
    virtual void bwdMechanicalMapping(Node *, core::BaseMapping *) {}
    virtual void bwdProjectiveConstraintSet(Node *, core::behavior::BaseProjectiveConstraintSet *) {}
    virtual bool stopAtMechanicalMapping(Node *, core::BaseMapping *) { return false; }
    virtual bool isThreadSafe() const { return false; }
    Result processNodeTopDown(Node * n) override {
        core::BaseMapping * map = nullptr; core::behavior::BaseMechanicalState * st = nullptr;
        find(n, map, st);
        VisitorContext ctx; ctx.root = ctx.node = n;
        if (map) {
            if (stopAtMechanicalMapping(n, map)) return RESULT_PRUNE;
            if (fwdMechanicalMapping(n, map) == RESULT_PRUNE) return RESULT_PRUNE;
            if (st) fwdMappedMechanicalState(&ctx, st);
        } else if (st) fwdMechanicalState(&ctx, st);
        for (auto & o : n->stub_local()) if (auto * f = dynamic_cast<core::behavior::BaseForceField *>(o.get())) fwdForceField(n, f);
        for (auto & o : n->stub_local()) if (auto * f = dynamic_cast<core::behavior::BaseProjectiveConstraintSet *>(o.get())) fwdProjectiveConstraintSet(n, f);
        return RESULT_CONTINUE;
    }
    void processNodeBottomUp(Node * n) override {
        core::BaseMapping * map = nullptr; core::behavior::BaseMechanicalState * st = nullptr;
        find(n, map, st);
        for (auto & o : n->stub_local()) if (auto * f = dynamic_cast<core::behavior::BaseProjectiveConstraintSet *>(o.get())) bwdProjectiveConstraintSet(n, f);
        if (map) {
            if (stopAtMechanicalMapping(n, map)) return;
            if (st) bwdMappedMechanicalState(n, st);
            bwdMechanicalMapping(n, map);
        } else if (st) bwdMechanicalState(n, st);
    }
private:
    static void find(Node * n, core::BaseMapping *& m, core::behavior::BaseMechanicalState *& s) {
        for (auto & o : n->stub_local()) {
            if (!m) m = dynamic_cast<core::BaseMapping *>(o.get());
            if (!s) s = dynamic_cast<core::behavior::BaseMechanicalState *>(o.get());
        }
    }
};
class MechanicalVisitor : public BaseMechanicalVisitor {
public:
    explicit MechanicalVisitor(const core::MechanicalParams * p) : BaseMechanicalVisitor(p), mparams(p) {}
protected:
    const core::MechanicalParams * mparams;
};

namespace mechanicalvisitor {
using namespace core; using core::behavior::BaseMechanicalState; using core::behavior::BaseForceField; using core::behavior::BaseProjectiveConstraintSet;
class MechanicalResetForceVisitor : public BaseMechanicalVisitor {
    MultiVecDerivId f; bool only;
public:
    MechanicalResetForceVisitor(const ExecParams * p, MultiVecDerivId r, bool onlyMapped = false) : BaseMechanicalVisitor(p), f(r), only(onlyMapped) {}
    Result fwdMechanicalState(Node *, BaseMechanicalState * m) override { if (!only) m->stub_op(f.getId(m), ConstVecId(), ConstVecId(), 0); return RESULT_CONTINUE; }
    Result fwdMappedMechanicalState(Node *, BaseMechanicalState * m) override { m->stub_op(f.getId(m), ConstVecId(), ConstVecId(), 0); return RESULT_CONTINUE; }
};
class MechanicalComputeForceVisitor : public MechanicalVisitor {
    MultiVecDerivId f; bool acc;
public:
    MechanicalComputeForceVisitor(const MechanicalParams * p, MultiVecDerivId r, bool accumulate = true, bool = true) : MechanicalVisitor(p), f(r), acc(accumulate) {}
    Result fwdForceField(Node *, BaseForceField * ff) override { ff->addForce(mparams, f); return RESULT_CONTINUE; }
    void bwdMechanicalMapping(Node *, BaseMapping * m) override { if (acc) m->applyJT(mparams, f, f); }
    bool stopAtMechanicalMapping(Node *, BaseMapping * m) override { return !m->areForcesMapped(); }
};
class MechanicalApplyConstraintsVisitor : public MechanicalVisitor {
    MultiVecDerivId f;
public:
    MechanicalApplyConstraintsVisitor(const MechanicalParams * p, MultiVecDerivId r, double ** = nullptr) : MechanicalVisitor(p), f(r) {}
    void bwdProjectiveConstraintSet(Node *, BaseProjectiveConstraintSet * c) override { c->projectResponse(mparams, f); }
    bool stopAtMechanicalMapping(Node *, BaseMapping *) override { return false; }
};
class MechanicalMultiVectorToBaseVectorVisitor : public BaseMechanicalVisitor {
    ConstMultiVecId s; defaulttype::BaseVector * d; const behavior::MultiMatrixAccessor * a;
public:
    MechanicalMultiVectorToBaseVectorVisitor(const ExecParams * p, ConstMultiVecId src, defaulttype::BaseVector * dst, const behavior::MultiMatrixAccessor * acc = nullptr) : BaseMechanicalVisitor(p), s(src), d(dst), a(acc) {}
    Result fwdMechanicalState(Node *, BaseMechanicalState * m) override { int o = a->getGlobalOffset(m); if (o >= 0) { unsigned u = unsigned(o); m->stub_to(s.getId(m), d, u); } return RESULT_CONTINUE; }
};
class MechanicalMultiVectorFromBaseVectorVisitor : public BaseMechanicalVisitor {
    MultiVecId d; const defaulttype::BaseVector * s; const behavior::MultiMatrixAccessor * a;
public:
    MechanicalMultiVectorFromBaseVectorVisitor(const ExecParams * p, MultiVecId dst, const defaulttype::BaseVector * src, const behavior::MultiMatrixAccessor * acc = nullptr) : BaseMechanicalVisitor(p), d(dst), s(src), a(acc) {}
    Result fwdMechanicalState(Node *, BaseMechanicalState * m) override { int o = a->getGlobalOffset(m); if (o >= 0) { unsigned u = unsigned(o); m->stub_from(d.getId(m), s, u); } return RESULT_CONTINUE; }
};
// v = a + f*b
class MechanicalVOpVisitor : public BaseMechanicalVisitor {
    MultiVecId v; ConstMultiVecId a, b; SReal f;
public:
    MechanicalVOpVisitor(const ExecParams * p, MultiVecId vv, ConstMultiVecId aa = ConstMultiVecId::null(), ConstMultiVecId bb = ConstMultiVecId::null(), SReal ff = 1.0, void * = nullptr) : BaseMechanicalVisitor(p), v(vv), a(aa), b(bb), f(ff) {}
    Result fwdMechanicalState(Node *, BaseMechanicalState * m) override { m->stub_op(v.getId(m), a.getId(m), b.getId(m), f); return RESULT_CONTINUE; }
    MechanicalVOpVisitor & setMapped(bool = true) { return *this; }
};
class MechanicalPropagateOnlyPositionAndVelocityVisitor : public MechanicalVisitor {
    MultiVecCoordId x; MultiVecDerivId v;
public:
    explicit MechanicalPropagateOnlyPositionAndVelocityVisitor(const MechanicalParams * p, SReal = 0, MultiVecCoordId xx = VecCoordId::position(), MultiVecDerivId vv = VecDerivId::velocity()) : MechanicalVisitor(p), x(xx), v(vv) {}
    Result fwdMechanicalMapping(Node *, BaseMapping * m) override { m->apply(mparams, x, x); m->applyJ(mparams, v, v); return RESULT_CONTINUE; }
};
class MechanicalPropagateDxVisitor : public MechanicalVisitor {
    MultiVecDerivId dx;
public:
    MechanicalPropagateDxVisitor(const MechanicalParams * p, MultiVecDerivId d) : MechanicalVisitor(p), dx(d) {}
    Result fwdMechanicalMapping(Node *, BaseMapping * m) override { m->applyJ(mparams, dx, dx); return RESULT_CONTINUE; }
};
class MechanicalAddMBKdxVisitor : public MechanicalVisitor {
    MultiVecDerivId r; bool acc;
public:
    MechanicalAddMBKdxVisitor(const MechanicalParams * p, MultiVecDerivId res, bool accumulate = true) : MechanicalVisitor(p), r(res), acc(accumulate) {}
    Result fwdForceField(Node *, BaseForceField * ff) override { ff->addMBKdx(mparams, r); return RESULT_CONTINUE; }
    void bwdMechanicalMapping(Node *, BaseMapping * m) override { if (acc) m->applyJT(mparams, r, r); }
    bool stopAtMechanicalMapping(Node *, BaseMapping * m) override { return !m->areForcesMapped(); }
};
} // namespace mechanicalvisitor
using namespace mechanicalvisitor;
}} // namespace sofa::simulation
namespace sofa { namespace core { namespace objectmodel {
inline void BaseContext::executeVisitor(simulation::Visitor * v, bool) { v->execute(this); }
}}}

// --------------------------------------------------------------------- linear algebra containers
namespace sofa { namespace component { namespace linearsolver {
template <class Real> class FullVector : public defaulttype::BaseVector {
    std::vector<Real> p;
public:
    FullVector() = default;
    explicit FullVector(Index n) : p(std::size_t(n)) {}
    Index size() const override { return Index(p.size()); }
    SReal element(Index i) const override { return SReal(p.at(std::size_t(i))); }
    void resize(Index n) override { p.assign(std::size_t(n), Real(0)); }
    void clear() override { std::fill(p.begin(), p.end(), Real(0)); }
    void set(Index i, SReal v) override { p.at(std::size_t(i)) = Real(v); }
    void add(Index i, SReal v) override { p.at(std::size_t(i)) += Real(v); }
    Real & operator[](Index i) { return p.at(std::size_t(i)); }
    const Real & operator[](Index i) const { return p.at(std::size_t(i)); }
    Real * ptr() { return p.data(); }
    const Real * ptr() const { return p.data(); }
    template <class R2> Real dot(const FullVector<R2> & o) const { Real r = 0; for (Index i = 0; i < size(); ++i) r += (*this)[i] * o[i]; return r; }
    double norm() const { return std::sqrt(double(dot(*this))); }
};
class DefaultMultiMatrixAccessor : public core::behavior::MultiMatrixAccessor {
    std::vector<std::pair<const core::behavior::BaseMechanicalState *, unsigned>> p;
    unsigned n = 0; defaulttype::BaseMatrix * g = nullptr;
public:
    void clear() { p.clear(); n = 0; g = nullptr; }
    void addMechanicalState(const core::behavior::BaseMechanicalState * s) override { p.emplace_back(s, n); n += s->getMatrixSize(); }
    void setupMatrices() {}
    void setGlobalMatrix(defaulttype::BaseMatrix * m) { g = m; }
    defaulttype::BaseMatrix * getGlobalMatrix() const { return g; }
    unsigned int getGlobalDimension() const override { return n; }
    int getGlobalOffset(const core::behavior::BaseMechanicalState * s) const override { for (auto & e : p) if (e.first == s) return int(e.second); return -1; }
    MatrixRef getMatrix(const core::behavior::BaseMechanicalState * s) const override { MatrixRef r; int o = getGlobalOffset(s); if (o >= 0 && g) { r.matrix = g; r.offset = unsigned(o); } return r; }
    void computeGlobalMatrix() {}
};
template <class Real> class EigenVectorWrapper;
}}}

// -------------------------------------------------------------------- vector / mechanical operations
namespace sofa { namespace simulation { namespace common {
class VisitorExecuteFunc {
    core::objectmodel::BaseContext & c;
public:
    explicit VisitorExecuteFunc(core::objectmodel::BaseContext & cc) : c(cc) {}
    template <class V> void operator()(V * v) { v->execute(&c); }
    template <class V> void operator()(V v) { v.execute(&c); }
};
namespace stub_detail {
class OpV : public BaseMechanicalVisitor {
public:
    std::function<void(core::behavior::BaseMechanicalState *)> top, mapped;
    OpV() : BaseMechanicalVisitor(nullptr) {}
    Result fwdMechanicalState(Node *, core::behavior::BaseMechanicalState * m) override { if (top) top(m); return RESULT_CONTINUE; }
    Result fwdMappedMechanicalState(Node *, core::behavior::BaseMechanicalState * m) override { if (mapped) mapped(m); return RESULT_CONTINUE; }
};
}
class VectorOperations {
    core::ExecParams const * params; core::objectmodel::BaseContext * ctx; SReal p_result = 0;
    template <class F> void top(F f) { stub_detail::OpV v; v.top = f; v.execute(ctx); }
    template <class F> void all(F f) { stub_detail::OpV v; v.top = f; v.mapped = f; v.execute(ctx); }
    static unsigned & next() { static unsigned n = 100; return n; }
public:
    VectorOperations(const core::ExecParams * p, core::objectmodel::BaseContext * c, bool = false) : params(p), ctx(c) {}
    template <core::VecType V> void v_alloc(core::TMultiVecId<V, core::V_WRITE> & id, bool = false, bool propagate = false) { id = core::TMultiVecId<V, core::V_WRITE>(); v_realloc(id, false, propagate); }
    template <core::VecType V> void v_realloc(core::TMultiVecId<V, core::V_WRITE> & id, bool = false, bool propagate = false) {
        const bool fresh = id.isNull();
        if (fresh) id = core::TMultiVecId<V, core::V_WRITE>(core::TVecId<V, core::V_WRITE>(next()++));
        auto f = [&](core::behavior::BaseMechanicalState * m) { core::VecId i = id.getId(m); if (fresh) m->stub_alloc(V, i.index); else m->stub_op(i, i, core::ConstVecId(), 0); };   // keeps the content, sets the size
        if (propagate) all(f); else top(f);
    }
    template <core::VecType V> void v_free(core::TMultiVecId<V, core::V_WRITE> & id, bool = false, bool = false) { id = core::TMultiVecId<V, core::V_WRITE>(); }
    void v_clear(core::MultiVecId v) { top([&](core::behavior::BaseMechanicalState * m) { m->stub_op(v.getId(m), core::ConstVecId(), core::ConstVecId(), 0); }); }
    template <core::VecType V> void v_eq(core::TMultiVecId<V, core::V_WRITE> v, core::TMultiVecId<V, core::V_READ> a) { top([&](core::behavior::BaseMechanicalState * m) { m->stub_op(v.getId(m), a.getId(m), core::ConstVecId(), 0); }); }
    template <core::VecType V> void v_eq(core::TMultiVecId<V, core::V_WRITE> v, core::TMultiVecId<V, core::V_WRITE> a) { v_eq(v, core::TMultiVecId<V, core::V_READ>(a)); }
    void v_peq(core::MultiVecId v, core::ConstMultiVecId a, SReal f = 1.0) { top([&](core::behavior::BaseMechanicalState * m) { m->stub_op(v.getId(m), v.getId(m), a.getId(m), f); }); }
    void v_teq(core::MultiVecId v, SReal f) { top([&](core::behavior::BaseMechanicalState * m) { m->stub_op(v.getId(m), core::ConstVecId(), v.getId(m), f); }); }
    void v_op(core::MultiVecId v, core::ConstMultiVecId a, core::ConstMultiVecId b, SReal f = 1.0) { top([&](core::behavior::BaseMechanicalState * m) { m->stub_op(v.getId(m), a.getId(m), b.getId(m), f); }); }
    void v_dot(core::ConstMultiVecId a, core::ConstMultiVecId b) { p_result = 0; top([&](core::behavior::BaseMechanicalState * m) { p_result += m->stub_dot(a.getId(m), b.getId(m)); }); }
    SReal finish() { return p_result; }
};
class MechanicalOperations {
public:
    core::MechanicalParams mparams; core::ConstraintParams cparams; core::objectmodel::BaseContext * ctx;
    MechanicalOperations(const core::MechanicalParams * p, core::objectmodel::BaseContext * c, bool = false) : mparams(*p), cparams(*p), ctx(c) {}
    MechanicalOperations(const core::ExecParams * p, core::objectmodel::BaseContext * c, bool = false) : mparams(*p), cparams(mparams), ctx(c) {}
    core::MechanicalParams * operator->() { return &mparams; }
    operator const core::MechanicalParams * () { return &mparams; }
    void getMatrixDimension(unsigned int * const r, unsigned int * const c, core::behavior::MultiMatrixAccessor * a = nullptr) {
        unsigned n = 0;
        stub_detail::OpV v; v.top = [&](core::behavior::BaseMechanicalState * m) { n += m->getMatrixSize(); if (a) a->addMechanicalState(m); };
        v.execute(ctx);
        if (r) *r += n;
        if (c) *c += n;
    }
    void multiVector2BaseVector(core::ConstMultiVecId s, defaulttype::BaseVector * d, const core::behavior::MultiMatrixAccessor * a = nullptr) { MechanicalMultiVectorToBaseVectorVisitor(&mparams, s, d, a).execute(ctx); }
    void baseVector2MultiVector(const defaulttype::BaseVector * s, core::MultiVecId d, const core::behavior::MultiMatrixAccessor * a = nullptr) { MechanicalMultiVectorFromBaseVectorVisitor(&mparams, d, s, a).execute(ctx); }
    void propagateDx(core::MultiVecDerivId dx, bool = false) { mparams.setDx(dx); MechanicalPropagateDxVisitor(&mparams, dx).execute(ctx); }
    void propagateDxAndResetDf(core::MultiVecDerivId dx, core::MultiVecDerivId df, bool = false) { mparams.setDx(dx); mparams.setDf(df); MechanicalPropagateDxVisitor(&mparams, dx).execute(ctx); MechanicalResetForceVisitor(&mparams, df, false).execute(ctx); }
    void addMBKdx(core::MultiVecDerivId df, SReal m, SReal b, SReal k, bool clear = true, bool acc = true) {
        if (clear) MechanicalResetForceVisitor(&mparams, df, true).execute(ctx);
        mparams.setMFactor(m); mparams.setBFactor(b); mparams.setKFactor(k);
        MechanicalAddMBKdxVisitor(&mparams, df, acc).execute(ctx);
    }
    void projectResponse(core::MultiVecDerivId f, double ** = nullptr) { MechanicalApplyConstraintsVisitor(&mparams, f).execute(ctx); }
    void computeForce(core::MultiVecDerivId f, bool clear = true, bool acc = true, bool = true) {
        mparams.setF(f);
        if (clear) MechanicalResetForceVisitor(&mparams, f, false).execute(ctx);
        MechanicalComputeForceVisitor(&mparams, f, acc).execute(ctx);
    }
    void solveConstraint(core::MultiVecId id, core::ConstraintParams::ConstOrder o) { cparams.setOrder(o); for (auto * s : ctx->getObjects<core::behavior::ConstraintSolver>(core::objectmodel::BaseContext::Local)) s->solveConstraint(&cparams, id); }
    // implicit systems of the legacy interface
    void m_setSystemMBKMatrix(SReal m, SReal b, SReal k) { mparams.setMFactor(m); mparams.setBFactor(b); mparams.setKFactor(k); if (auto * s = solver()) { s->setSystemMBKMatrix(&mparams); } }
    void m_setSystemRHVector(core::MultiVecDerivId v) { if (auto * s = solver()) s->setSystemRHVector(v); }
    void m_setSystemLHVector(core::MultiVecDerivId v) { if (auto * s = solver()) s->setSystemLHVector(v); }
    void m_solveSystem() { if (auto * s = solver()) s->solveSystem(); }
    void m_resetSystem() { if (auto * s = solver()) s->resetSystem(); }
private:
    core::behavior::LinearSolver * solver() { return ctx->get<core::behavior::LinearSolver>(core::objectmodel::BaseContext::SearchDown); }
};
}}} // namespace sofa::simulation::common

namespace sofa { namespace core { namespace behavior {
template <VecType V> class TMultiVec {
    simulation::common::VectorOperations * vop = nullptr; TMultiVecId<V, V_WRITE> v; bool dynamic = false;
public:
    typedef TMultiVecId<V, V_WRITE> MyMultiVecId;
    TMultiVec() = default;
    TMultiVec(const TMultiVec &) = delete;
    TMultiVec(simulation::common::VectorOperations * o, MyMultiVecId id) : vop(o), v(id) {}
    explicit TMultiVec(simulation::common::VectorOperations * o, bool dyn = true) : vop(o), dynamic(dyn) { vop->v_alloc(v); }
    MyMultiVecId id() const { return v; }
    operator MyMultiVecId() const { return v; }
    operator TMultiVecId<V, V_READ>() const { return v; }
    operator MultiVecId() const { return v; }
    operator ConstMultiVecId() const { return v; }
    void realloc(simulation::common::VectorOperations * o, bool ff = false, bool prop = false, MyMultiVecId = MyMultiVecId()) { vop = o; vop->v_realloc(v, ff, prop); }
    void clear() { vop->v_clear(v); }
    void eq(MyMultiVecId a) { vop->v_eq(v, a); }
    template <VecType A, VecType B> void eq(const TMultiVec<A> & a, const TMultiVec<B> & b, SReal f = 1.0) { vop->v_op(v, ConstMultiVecId(a.id()), ConstMultiVecId(b.id()), f); }
    template <VecType A> void eq(const TMultiVec<A> & a) { vop->v_eq(v, TMultiVecId<V, V_READ>(a.id())); }
    template <VecType A> void peq(const TMultiVec<A> & a, SReal f = 1.0) { vop->v_peq(v, ConstMultiVecId(a.id()), f); }
    void teq(SReal f) { vop->v_teq(v, f); }
    SReal dot(const TMultiVec & a) const { vop->v_dot(v, a.v); return vop->finish(); }
    SReal norm() const { return std::sqrt(dot(*this)); }
    TMultiVec & operator=(const TMultiVec & o) { vop->v_eq(v, TMultiVecId<V, V_READ>(o.v)); return *this; }
};
typedef TMultiVec<V_COORD> MultiVecCoord; typedef TMultiVec<V_DERIV> MultiVecDeriv;
class MechanicalMatrix {
public:
    SReal m = 0, b = 0, k = 0;
    MechanicalMatrix() = default;
    MechanicalMatrix(SReal mm, SReal bb, SReal kk) : m(mm), b(bb), k(kk) {}
    MechanicalMatrix operator*(SReal f) const { return {m * f, b * f, k * f}; }
    MechanicalMatrix operator+(const MechanicalMatrix & o) const { return {m + o.m, b + o.b, k + o.k}; }
    MechanicalMatrix operator-(const MechanicalMatrix & o) const { return {m - o.m, b - o.b, k - o.k}; }
    static const MechanicalMatrix M, B, K;
};
inline const MechanicalMatrix MechanicalMatrix::M(1, 0, 0); inline const MechanicalMatrix MechanicalMatrix::B(0, 1, 0); inline const MechanicalMatrix MechanicalMatrix::K(0, 0, 1);
template <class Parent> class MultiMatrix {
    Parent * p;
public:
    explicit MultiMatrix(Parent * q) : p(q) {}
    void clear() { p->m_resetSystem(); }
    void reset() { p->m_resetSystem(); }
    void operator=(const MechanicalMatrix & m) { p->m_setSystemMBKMatrix(m.m, m.b, m.k); }
    void solve(MultiVecDerivId x, MultiVecDerivId f) { p->m_setSystemRHVector(f); p->m_setSystemLHVector(x); p->m_solveSystem(); }
};
}}} // namespace sofa::core::behavior
