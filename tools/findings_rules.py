RULES[:0] = [("MemoryPool|MallocPool::", "P01"), ("MallocPooled|MallocBinned", "P02"), ("NonCopyable", "P03")]
RULES[:0] = [("Quat", "N02"), ("Vector4 ", "N03"), ("integer power", "N04"), ("Vec2|Vec4|Vec3|vector", "N01")]
RULES[:0] = [("quantifier|lookahead states|cloned regex group|pushRepeat|shortcut of an optional", "E02"), ("regex states|AutomatonBuilder|an automaton owns", "E01"), ("xecutor", "E03"), ("macros stay inside|pushBranch outside", "E04")]
RULES[:0] = [("macros stay inside|pushBranch outside", "E04")]
RULES[:0] = [("recursive functions are not forced|assert.h|optional.h includes", "X02"), ("Sort::partition", "Q01"), ("ArrayIteratorBase::operator-=", "X02"), ("IsTrivially", "X01")]
RULES[:0] = [("Set::remove accepts", "X02")]
