prop='C24'
needs='a stack that grows beyond its capacity after it was created with room for one value'
breaks='the capacity stays as it is: values are written behind the memory'
edits=[('src/stack.c','	if (n <= cap)\n		return cap + 1;\n','	if (n < cap)\n		return cap + 1;\n')]
demo='''extern "C" {
#include "squash/stack.h"
}
int main() { sqfs_stack s; sqfs_stack_create(&s, 8, 1, 0); for (int i = 0; i < 5; i++) { long *v; CHECK(!sqfs_stack_push(&s, &v), "push"); *v = i; } for (int i = 0; i < 5; i++) { long *v; CHECK(!sqfs_stack_at(&s, i, &v) && *v == i, "value %d", i); } sqfs_stack_destroy(&s); return 0; }
'''
