package world

import "testing"

func TestWorker(t *testing.T) { Worker(t) }
