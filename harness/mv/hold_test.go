package mv

// held tells what the interleavings that the woven build forces came to.
var held = func() map[string]int { return nil }
