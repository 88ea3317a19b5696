#pragma once
#include <ade/graph.hpp>

namespace ade {
namespace passes {

struct PassContext {
    Graph& graph;
};

class TopologicalSortData {
public:
    TopologicalSortData() = default;
    explicit TopologicalSortData(std::vector<NodeHandle> n) : m_nodes(std::move(n)) {}
    static const char* name() { return "TopologicalSortData"; }
    std::vector<NodeHandle> nodes() const { return m_nodes; }

private:
    std::vector<NodeHandle> m_nodes;
};

struct TopologicalSort {
    static std::string name() { return "TopologicalSort"; }
    void operator()(PassContext& ctx) const {
        std::unordered_map<Node*, int> mark;
        std::vector<NodeHandle>        sorted;
        std::function<void(const NodeHandle&)> visit = [&](const NodeHandle& n) {
            int& m = mark[n.get()];
            if (m == 2) return;
            if (m == 1) throw std::logic_error("ade: cyclic graph");
            m = 1;
            for (auto& in : n->inNodes()) visit(in);
            mark[n.get()] = 2;
            sorted.push_back(n);
        };
        for (auto& n : ctx.graph.nodes()) visit(n);
        ctx.graph.metadata().set(TopologicalSortData(std::move(sorted)));
    }
};

} // namespace passes
} // namespace ade
