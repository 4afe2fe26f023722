// Executes operations on the catalogs' list type, and records what traversals
// find.  usage: lists script out.ndjson
//   R             reset        P l n   push        D l n   remove      C l  clear
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iterator>

#include <boost/config.hpp>
#include <boost/openmethod/detail/static_list.hpp>

struct Node : boost::openmethod::detail::static_list<Node>::static_link {
    int id;
};
using List = boost::openmethod::detail::static_list<Node>;

// zero-initialized static storage, as for registrations
alignas(Node) static char node_buf[16][sizeof(Node)];
static List lists[4];

static Node& node(int i) {
    return *reinterpret_cast<Node*>(node_buf[i]);
}

static void observe(FILE* out) {
    fprintf(out, "\"o\":[");
    for (int l = 1; l <= 3; ++l) {
        fprintf(out, "%s{\"c\":[", l > 1 ? "," : "");
        int fuel = 40;
        const char* sep = "";
        for (auto it = lists[l].begin(); it != lists[l].end() && fuel; --fuel) {
            fprintf(out, "%s%d", sep, it->id);
            sep = ",";
            if (fuel & 1) {
                ++it;
            } else {
                it++;
            }
        }
        fprintf(out, "],\"k\":[");
        fuel = 40;
        sep = "";
        const List& cl = lists[l];
        for (auto it = cl.begin(); it != cl.end() && fuel; --fuel) {
            fprintf(out, "%s%d", sep, (*it).id);
            sep = ",";
            if (fuel & 1) {
                ++it;
            } else {
                it++;
            }
        }
        // size() does not terminate if the list is cyclic
        fprintf(
            out, "],\"n\":%ld,\"e\":%d}", fuel ? long(cl.size()) : -1L,
            int(cl.empty()));
    }
    fprintf(out, "]}\n");
}

int main(int argc, char** argv) {
    if (argc < 3) {
        return 2;
    }
    FILE* in = fopen(argv[1], "r");
    FILE* out = fopen(argv[2], "w");
    char op;
    for (int i = 0; i < 16; ++i) {
        node(i).id = i;
    }
    while (fscanf(in, " %c", &op) == 1) {
        int l = 0, n = 0;
        switch (op) {
        case 'R':
            for (auto& list : lists) {
                list.clear();
            }
            // whatever clear() does, start from scratch
            memset(static_cast<void*>(lists), 0, sizeof lists);
            memset(node_buf, 0, sizeof node_buf);
            for (int i = 0; i < 16; ++i) {
                node(i).id = i;
            }
            fprintf(out, "{\"op\":\"reset\"}\n");
            continue;
        case 'P':
            if (fscanf(in, "%d %d", &l, &n) != 2) {
                return 2;
            }
            fprintf(out, "{\"op\":\"push\",\"l\":%d,\"x\":%d,", l, n);
            fflush(out);
            lists[l].push_back(node(n));
            break;
        case 'D':
            if (fscanf(in, "%d %d", &l, &n) != 2) {
                return 2;
            }
            fprintf(out, "{\"op\":\"remove\",\"l\":%d,\"x\":%d,", l, n);
            fflush(out);
            lists[l].remove(node(n));
            break;
        case 'C':
            if (fscanf(in, "%d", &l) != 1) {
                return 2;
            }
            fprintf(out, "{\"op\":\"clear\",\"l\":%d,\"x\":0,", l);
            fflush(out);
            lists[l].clear();
            break;
        default:
            return 2;
        }
        observe(out);
    }
    fprintf(out, "{\"op\":\"end\"}\n");
    fclose(out);
    return 0;
}
