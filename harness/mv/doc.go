// Package mv holds the monitors; everything is in its test files, so that testing/synctest can be used.
package mv
