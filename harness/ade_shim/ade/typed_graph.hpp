#pragma once
#include <ade/graph.hpp>

namespace ade {
template <typename... Types>
class TypedGraph {
public:
    explicit TypedGraph(Graph& g) : m_g(&g) {}
    NodeHandle createNode() { return m_g->createNode(); }
    EdgeHandle link(const NodeHandle& s, const NodeHandle& d) { return m_g->link(s, d); }
    std::vector<NodeHandle> nodes() const { return m_g->nodes(); }
    details::Metadata& metadata() { return m_g->metadata(); }
    details::Metadata& metadata(const NodeHandle& n) { return m_g->metadata(n); }
    details::Metadata& metadata(const EdgeHandle& e) { return m_g->metadata(e); }
    const details::Metadata& metadata() const { return m_g->metadata(); }
    const details::Metadata& metadata(const NodeHandle& n) const { return m_g->metadata(n); }
    const details::Metadata& metadata(const EdgeHandle& e) const { return m_g->metadata(e); }

private:
    Graph* m_g;
};
} // namespace ade
