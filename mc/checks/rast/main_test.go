package rast

import (
	"testing"
	"verifmc/explore"
)

func TestMain(m *testing.M)   { explore.Main(m) }
func TestWorker(t *testing.T) { explore.Worker(t) }
