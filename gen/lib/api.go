package api_test
