#ifndef MM_TYPES_HH
#define MM_TYPES_HH
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <set>
#include <utility>
enum Color { RED = 0, GREEN = 1, BLUE = -3, BIG = 100000 };
class Leaf { public:
    char c; unsigned char uc; short s; unsigned short us; int i; unsigned int ui; long l; unsigned long ul;
    long long ll; unsigned long long ull; float f; double d; bool b; Color e;
    int b1 : 3; unsigned int b2 : 5; int b3 : 7;
    int arr[3]; double mat[2][3]; char text[6]; Color es[2];
};
class Pt { public: int x; double y[2]; Pt *to; };
class Node { public:
    int id; Node *next; Node *kids[2]; int *ip; double *dp; int **ipp; Leaf leaf; Pt pm[2][2]; Leaf *lp; Node **np; Pt *pp;
    std::string str; std::string strs[3]; double *dps[2][2]; char *cs; char *css[2];
};
class Stl { public:
    int k; std::vector<int> vi; std::vector<double> vd; std::deque<short> dq; std::list<long> li; std::set<int> se; std::map<int, double> mp;
    std::vector<std::string> vs; std::pair<int, int> pr; std::map<std::string, int> ms; std::vector<bool> vb; std::list<std::string> ls;
    std::vector<std::vector<int> > vv;
};
#endif
