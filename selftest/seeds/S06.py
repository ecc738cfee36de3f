prop = 'C18'
needs = 'comparing two tree indexes of one level that agree in one coordinate and differ in another'
breaks = 'operator!= of tree indexes is false for different indexes that share a coordinate'
edits = [('core_tree.hpp',
  'level != other.level || (coordinates != other.coordinates).any()',
  'level != other.level || (coordinates != other.coordinates).all()')]
cpp = r'''
#include <iostream>
#include "core_tree.hpp"
int main()
{
    mara::tree_index_t<2> i, j; i.level = j.level = 2;
    i.coordinates[0] = 1; i.coordinates[1] = 2;
    j.coordinates[0] = 1; j.coordinates[1] = 3;
    return i != j ? 0 : 1;
}
'''
