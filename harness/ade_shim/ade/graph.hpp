// Minimal stand-in for the part of opencv/ade that deepworks uses.
//
// thirdparty/ade is an empty submodule in this sandbox, so the four sources that
// need it (model.cpp, graphbuilder.cpp, cpubackend.cpp, serialization.cpp) cannot be
// built against the real library.  This header-only stand-in gives them the same
// interface: a directed multigraph whose nodes, edges and graph carry a typed
// metadata bag, and a topological sort that visits a node's in-nodes first.
#pragma once

#include <algorithm>
#include <any>
#include <cassert>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <typeindex>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace ade {

class Node;
class Edge;
class Graph;

template <class T>
class Handle {
public:
    Handle() = default;
    Handle(std::nullptr_t) {}
    explicit Handle(std::shared_ptr<T> p) : m_p(std::move(p)) {}

    T* get() const {
        auto p = m_p.lock();
        return p.get();
    }
    T* operator->() const {
        T* p = get();
        if (!p) throw std::logic_error("ade: null handle");
        return p;
    }
    T& operator*() const { return *operator->(); }
    explicit operator bool() const { return get() != nullptr; }
    friend bool operator==(const Handle& a, const Handle& b) { return a.get() == b.get(); }
    friend bool operator!=(const Handle& a, const Handle& b) { return a.get() != b.get(); }
    friend bool operator<(const Handle& a, const Handle& b) { return a.get() < b.get(); }
    friend bool operator==(const Handle& a, std::nullptr_t) { return a.get() == nullptr; }
    friend bool operator!=(const Handle& a, std::nullptr_t) { return a.get() != nullptr; }
    friend bool operator==(std::nullptr_t, const Handle& a) { return a.get() == nullptr; }
    friend bool operator!=(std::nullptr_t, const Handle& a) { return a.get() != nullptr; }

private:
    std::weak_ptr<T> m_p;
};

using NodeHandle = Handle<Node>;
using EdgeHandle = Handle<Edge>;

template <class T>
struct HandleHasher {
    size_t operator()(const Handle<T>& h) const { return std::hash<T*>()(h.get()); }
};

namespace details {
class Metadata {
public:
    template <class T> bool contains() const { return m_data.count(std::type_index(typeid(T))) != 0; }
    template <class T> T& get() {
        auto it = m_data.find(std::type_index(typeid(T)));
        if (it == m_data.end()) throw std::logic_error("ade: no such metadata");
        return *std::any_cast<T>(&it->second);
    }
    template <class T> const T& get() const { return const_cast<Metadata*>(this)->get<T>(); }
    template <class T> T get(const T& def) const { return contains<T>() ? get<T>() : def; }
    template <class T> void set(const T& v) { m_data[std::type_index(typeid(T))] = v; }
    template <class T> void erase() { m_data.erase(std::type_index(typeid(T))); }

private:
    std::map<std::type_index, std::any> m_data;
};
} // namespace details

class Edge {
public:
    NodeHandle srcNode() const { return m_src; }
    NodeHandle dstNode() const { return m_dst; }

private:
    friend class Graph;
    NodeHandle        m_src, m_dst;
    details::Metadata m_meta;
};

class Node {
public:
    std::vector<EdgeHandle> inEdges()  const { return m_in; }
    std::vector<EdgeHandle> outEdges() const { return m_out; }
    std::vector<NodeHandle> inNodes()  const {
        std::vector<NodeHandle> r;
        for (auto& e : m_in) r.push_back(e->srcNode());
        return r;
    }
    std::vector<NodeHandle> outNodes() const {
        std::vector<NodeHandle> r;
        for (auto& e : m_out) r.push_back(e->dstNode());
        return r;
    }

private:
    friend class Graph;
    std::vector<EdgeHandle> m_in, m_out;
    details::Metadata       m_meta;
};

class Graph {
public:
    Graph() = default;
    Graph(const Graph&) = delete;
    Graph& operator=(const Graph&) = delete;

    NodeHandle createNode() {
        m_nodes.push_back(std::make_shared<Node>());
        return NodeHandle(m_nodes.back());
    }
    EdgeHandle link(const NodeHandle& src, const NodeHandle& dst) {
        auto e = std::make_shared<Edge>();
        e->m_src = src;
        e->m_dst = dst;
        m_edges.push_back(e);
        EdgeHandle h(e);
        src->m_out.push_back(h);
        dst->m_in.push_back(h);
        return h;
    }
    std::vector<NodeHandle> nodes() const {
        std::vector<NodeHandle> r;
        for (auto& n : m_nodes) r.emplace_back(n);
        return r;
    }
    details::Metadata& metadata() { return m_meta; }
    details::Metadata& metadata(const NodeHandle& n) { return n->m_meta; }
    details::Metadata& metadata(const EdgeHandle& e) { return e->m_meta; }

private:
    std::vector<std::shared_ptr<Node>> m_nodes;
    std::vector<std::shared_ptr<Edge>> m_edges;
    details::Metadata                  m_meta;
};

} // namespace ade

namespace std {
template <class T>
struct hash<ade::Handle<T>> {
    size_t operator()(const ade::Handle<T>& h) const { return std::hash<T*>()(h.get()); }
};
} // namespace std
