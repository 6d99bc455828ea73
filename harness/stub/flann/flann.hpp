// nearest neighbours played by the harness: the index keeps its points, a search answers with any of them and their squared distances
#pragma once
#include <vector>
#include <cstddef>
extern "C" int hook_neighbour(int rank, int size);
namespace flann {
template<class T> struct L2 { typedef T ElementType; typedef T ResultType; };
template<class T> class Matrix { T* _d; public: size_t rows, cols; Matrix() : _d(NULL), rows(0), cols(0) {} Matrix(T* d, size_t r, size_t c, size_t = 0) : _d(d), rows(r), cols(c) {} T* operator[](size_t i) const { return _d + i * cols; } T* ptr() const { return _d; } };
struct IndexParams {}; struct KDTreeIndexParams : IndexParams { KDTreeIndexParams(int = 4) {} }; struct KDTreeSingleIndexParams : IndexParams { KDTreeSingleIndexParams(int = 10, bool = true) {} }; struct LinearIndexParams : IndexParams {};
struct SearchParams { SearchParams(int = 32, float = 0, bool = true) {} };
extern std::vector<std::vector<double> > played_points; extern int played_builds, played_searches; extern std::vector<int> played_answer; extern std::vector<double> played_query;
template<class D> class Index {
  Matrix<double> _m; bool _built;   // the points are not copied
  std::vector<double> row(size_t i) const { std::vector<double> r; for(size_t j = 0; j < _m.cols; ++j) r.push_back(_m[i][j]); return r; }
public:
  Index(const Matrix<double>& m, const IndexParams&, D = D()) : _m(m), _built(false) {}
  void buildIndex() { _built = true; ++played_builds; played_points.clear(); for(size_t i = 0; i < _m.rows; ++i) played_points.push_back(row(i)); }
  size_t size() const { return _m.rows; }
  int knnSearch(const Matrix<double>& q, std::vector<std::vector<int> >& ids, std::vector<std::vector<double> >& dists, size_t knn, const SearchParams&) const {
    ids.assign(q.rows, std::vector<int>()); dists.assign(q.rows, std::vector<double>()); if(!_built) return 0; ++played_searches;
    int n = (int)(knn < _m.rows ? knn : _m.rows); played_answer.clear(); played_query.clear(); for(size_t j = 0; j < q.cols; ++j) played_query.push_back(q[0][j]);
    for(int k = 0; k < n; ++k) { int i = hook_neighbour(k, (int)_m.rows); double s = 0; for(size_t j = 0; j < q.cols; ++j) s += (_m[i][j] - q[0][j]) * (_m[i][j] - q[0][j]); ids[0].push_back(i); dists[0].push_back(s); played_answer.push_back(i); }
    return n;
  }
};
}
