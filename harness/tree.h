// Hand-built Gumbo trees for harnesses.  The shape matches what gumbo_parse
// produces: a document node, element/text/comment children, index_within_parent,
// attribute vectors, original tag text for unknown tags.
#pragma once
#include "hsx.h"
#include <gumbo.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
namespace hsx {
struct Tree {
  std::vector<GumboNode*> nodes;        // creation order; [0] is the document
  Tree() { doc_ = make(GUMBO_NODE_DOCUMENT); doc_->v.document.children = vec(); doc_->v.document.has_doctype = false; doc_->v.document.name = doc_->v.document.public_identifier = doc_->v.document.system_identifier = ""; }
  Tree(const Tree&) = delete;
  ~Tree() { for (auto* n : nodes) { if (isElement(n)) { for (unsigned i = 0; i < n->v.element.attributes.length; ++i) { auto* a = (GumboAttribute*)n->v.element.attributes.data[i]; delete[] a->name; delete[] a->value; delete a; } free(n->v.element.attributes.data); free(n->v.element.children.data); } else if (n->type == GUMBO_NODE_DOCUMENT) free(n->v.document.children.data); delete n; } for (auto* s : strs_) delete[] s; }
  GumboNode* doc() { return doc_; }
  static bool isElement(const GumboNode* n) { return n->type == GUMBO_NODE_ELEMENT || n->type == GUMBO_NODE_TEMPLATE; }
  GumboNode* element(GumboNode* parent, GumboTag tag, const char* original = nullptr) {
    GumboNode* n = make(GUMBO_NODE_ELEMENT); auto& e = n->v.element; memset(&e, 0, sizeof e); e.children = vec(); e.attributes = vec(); e.tag = tag; e.tag_namespace = GUMBO_NAMESPACE_HTML;
    if (original) setOriginal(n, original);
    link(parent, n); return n;
  }
  void setOriginal(GumboNode* n, const std::string& o) { n->v.element.original_tag.data = keep(o); n->v.element.original_tag.length = o.size(); }
  GumboNode* text(GumboNode* parent, const std::string& s, GumboNodeType t = GUMBO_NODE_TEXT) {
    GumboNode* n = make(t); memset(&n->v.text, 0, sizeof n->v.text); n->v.text.text = keep(s); n->v.text.original_text.data = n->v.text.text; n->v.text.original_text.length = s.size(); link(parent, n); return n;
  }
  GumboAttribute* attr(GumboNode* n, const std::string& name, const std::string& value) {
    auto* a = new GumboAttribute; memset(a, 0, sizeof *a); a->attr_namespace = GUMBO_ATTR_NAMESPACE_NONE; a->name = dup(name); a->value = dup(value); push(n->v.element.attributes, a); return a;
  }
  void link(GumboNode* parent, GumboNode* n) {
    n->parent = parent; if (!parent) { n->index_within_parent = (size_t)-1; return; }
    GumboVector& v = parent->type == GUMBO_NODE_DOCUMENT ? parent->v.document.children : parent->v.element.children; n->index_within_parent = v.length; push(v, n);
  }
 private:
  GumboNode* doc_; std::vector<char*> strs_;
  GumboNode* make(GumboNodeType t) { auto* n = new GumboNode; memset(n, 0, sizeof *n); n->type = t; nodes.push_back(n); return n; }
  static GumboVector vec() { GumboVector v; v.data = nullptr; v.length = v.capacity = 0; return v; }
  static void push(GumboVector& v, void* p) { if (v.length == v.capacity) { unsigned c = v.capacity ? v.capacity * 2 : 4; v.data = (void**)realloc(v.data, c * sizeof(void*)); v.capacity = c; } v.data[v.length++] = p; }
  static char* dup(const std::string& s) { char* p = new char[s.size() + 1]; memcpy(p, s.data(), s.size()); p[s.size()] = 0; return p; }
  const char* keep(const std::string& s) { char* p = dup(s); strs_.push_back(p); return p; }
};
}
