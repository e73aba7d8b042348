#!/usr/bin/env python3
"""run.py <property id>: runs the check of one property (see MANIFEST.json)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
import vf, kernel, resources, clocks, ports, sync, state, tree, models
REG = {
    'C01': kernel.every_tick,
    'C02': kernel.ordering,
    'C03': kernel.precedence_graph,
    'C04': kernel.running,
    'C05': kernel.cancelling,
    'C06': kernel.unique,
    'C07': kernel.payloads,
    'C08': kernel.asynchronous,
    'C09': clocks.clocks,
    'C10': ports.ports,
    'C11': sync.sync,
    'C13': resources.queue,
    'C14': resources.buffer,
    'C15': resources.circular_buffer,
    'C16': resources.array,
    'C17': resources.pipe,
    'C18': resources.pipeline,
    'C19': resources.priority_queue,
    'C20': resources.shared_data,
    'C22': resources.shared_pointers,
    'C23': state.checkpoints,
    'C24': state.memory,
    'C25': state.registers,
    'C26': tree.tree,
    'C33': models.cache,
    'C34': models.small,
}
if __name__ == '__main__':
    sys.exit(vf.main(REG))
