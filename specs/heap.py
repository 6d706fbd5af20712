# The collection of bounded items: good = upper bound within the good threshold (dropped),
# bad = not good and lower bound reaches the bad threshold (set aside), otherwise active.

@of('BoundedItemsHeap.__init__', props='C13', init=True)
def heap_init(self, good_threshold: Fraction | None, bad_threshold: Fraction | None, keep_max_lo_item: bool, stash: Any):
    self._heap = []
    self._bad_items = []
    self._good_threshold = good_threshold
    self._bad_threshold = bad_threshold
    self._keep_max_lo_item = keep_max_lo_item
    if keep_max_lo_item: self.seen_items = False
    self.stash = stash
    self._inc = 0

@of('BoundedItemsHeap.push', props='C13 C14 C10', opaque='none')
def heap_push(self, item: BoundedItem):
    if self._keep_max_lo_item and (not self.seen_items or item.lo > self.max_lo_item.lo):
        self.max_lo_item = item
        self.seen_items = True
    good = self._good_threshold is not None and item.up <= self._good_threshold
    bad = not good and self._bad_threshold is not None and item.lo >= self._bad_threshold
    if bad: self._bad_items.append(item)
    if not good and not bad:
        self._inc += 1
        heappush(self._heap, (0 - item.up, self._inc, item))

@of('BoundedItemsHeap.update_good_threshold', props='C13 C14 C10', opaque=['BoundedItemsHeap.push'], raises='strict')
def heap_raise(self, threshold: Fraction):
    if self._good_threshold is not None and threshold < self._good_threshold: raise ValueError
    self._good_threshold = threshold
    keep = [node[2] for node in self._heap if node[2].up > threshold]
    if len(keep) < len(self._heap):
        self._heap = []
        for it in keep: self.push(it)

@of('BoundedItemsHeap.size', props='C13 C15', opaque='none')
def heap_size(self): return len(self._heap)

@of('BoundedItemsHeap.items', props='C13', opaque='none', mode='bag')
def heap_items(self):
    for node in self._heap: yield node[2]

@of('BoundedItemsHeap.top', props='C13 C14', opaque='none')
def heap_top(self): return self._heap[0][2]

@of('BoundedItemsHeap.pop', props='C13 C14', opaque='none')
def heap_pop(self): return heappop(self._heap)[2]

@of('BoundedItemsHeap.pop_bad_items', props='C13 C15', opaque='none', mode='bag')
def heap_pop_bad(self):
    r = self._bad_items
    self._bad_items = []
    return r

@of('BoundedItemsHeap.copy_and_cleanup', props='C13', opaque=['BoundedItemsHeap.push'], keep=['new:BoundedItemsHeap'])
def heap_copy(self, good_threshold: Fraction | None, bad_threshold: Fraction | None):
    h = BoundedItemsHeap(good_threshold, bad_threshold)
    for node in self._heap: h.push(node[2])
    return h
