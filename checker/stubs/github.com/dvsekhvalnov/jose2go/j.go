package jose

func Decode(token string, key interface{}) (string, map[string]interface{}, error) {
	return "", nil, nil
}
