prop = 'C01'
needs = 'a restart from a checkpoint that is not the first one'
breaks = 'the number of times a task was done is not read back: after a restart the numbering of checkpoints starts over and overwrites earlier ones'
edits = [('app_serialize.hpp', '        task.num_times_performed = h5_task.read<int>("num_times_performed");\n', '')]
cpp = r'''
#include <iostream>
#include "app_serialize.hpp"
int main()
{
    mara::schedule_t s; s.create("write_checkpoint");
    for (int i = 0; i < 3; ++i) { s.mark_as_due("write_checkpoint", 0.5); s.mark_as_completed("write_checkpoint"); }
    { h5::File f("a.h5", "w"); mara::write_schedule(f.require_group("schedule"), s); }
    auto r = mara::read_schedule(h5::File("a.h5", "r").open_group("schedule"));
    std::cout << r.num_times_performed("write_checkpoint") << std::endl;
    return r.num_times_performed("write_checkpoint") == 3 && r.last_performed("write_checkpoint") == 1.5 ? 0 : 1;
}
'''
